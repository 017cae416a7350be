//! P13, P19, P20, P23: one step of the scanner, from an unknown scanner state over unknown text.
use super::floor;
use super::parser::{field, ty_args, var_of, vname};
use crate::ai::models::as_view;
use crate::ai::*;
use crate::program::Program;
use crate::report::Report;
use rustc_public::mir::mono::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

fn deref_ty(t: Ty) -> Ty { match t.kind() { TyKind::RigidTy(RigidTy::Ref(_, t, _)) => t, _ => t } }
fn is_ref(t: Ty) -> bool { matches!(t.kind(), TyKind::RigidTy(RigidTy::Ref(..))) }
fn tname(t: Ty) -> Rc<str> { info(t).name.clone() }
fn is_str_ref(t: Ty) -> bool { is_ref(t) && matches!(deref_ty(t).kind(), TyKind::RigidTy(RigidTy::Str)) }
fn fnames(t: Ty, v: usize) -> Vec<String> {
    match t.kind() { TyKind::RigidTy(RigidTy::Adt(d, _)) => d.variants().get(v).map(|v| v.fields().iter().map(|f| f.name.to_string()).collect()).unwrap_or_default(), _ => vec![] }
}

/// Where the parts of the scanner's state live.
#[derive(Clone)]
pub struct Lay { scanner: Ty, stats: Vec<Pe>, stats_ty: Ty, save: Vec<Pe>, save_ty: Ty, indents: Vec<Pe>, flow: Vec<Pe>, indent: Vec<Pe>, started: Vec<Pe>, allowed: Vec<Pe>, state: Vec<Pe>, state_ty: Ty, r: usize, l: usize, c: usize }

fn named(cx: &Cx, t: Ty, n: &str) -> Option<(Pe, Ty)> { let i = fnames(t, 0).iter().position(|x| x == n)?; Some((Pe::F(i as u32), *cx.fields(t, 0).get(i)?)) }
/// The only field of that type.
fn only(cx: &Cx, t: Ty, f: impl Fn(Ty) -> bool) -> Option<(Pe, Ty)> { let v: Vec<(usize, Ty)> = cx.fields(t, 0).iter().cloned().enumerate().filter(|(_, t)| f(*t)).collect(); if v.len() == 1 { Some((Pe::F(v[0].0 as u32), v[0].1)) } else { None } }
fn is_bool(t: Ty) -> bool { matches!(t.kind(), TyKind::RigidTy(RigidTy::Bool)) }
fn is_usize(t: Ty) -> bool { matches!(t.kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::Usize))) }
/// The k-th of the numbers, when they do not have the expected name.
fn nth_num(cx: &Cx, t: Ty, n: &str, k: usize) -> Option<usize> { fnames(t, 0).iter().position(|x| x == n).or_else(|| cx.fields(t, 0).iter().enumerate().filter(|(_, t)| is_usize(**t)).nth(k).map(|x| x.0)) }
fn typed(cx: &Cx, t: Ty, f: impl Fn(&str) -> bool) -> Option<(Pe, Ty)> { let v = cx.fields(t, 0); let i = v.iter().position(|x| f(&tname(*x)))?; Some((Pe::F(i as u32), v[i])) }

pub fn layout(cx: &Cx, scanner: Ty) -> Option<Lay> {
    let (ps, stats_ty) = typed(cx, scanner, |n| n.ends_with("::MStats"))?;
    let (pk, key_ty) = typed(cx, scanner, |n| n.ends_with("::Key"))?;
    let (pv, save_ty) = typed(cx, key_ty, |n| n.ends_with("option::Option"))?;
    let (pc, ctx_ty) = typed(cx, scanner, |n| n.ends_with("::Context"))?;
    let (pi, _) = typed(cx, ctx_ty, |n| n.ends_with("vec::Vec"))?;
    let (pst, state_ty) = typed(cx, scanner, |n| n.ends_with("::StreamState"))?;
    let flow = nth_num(cx, ctx_ty, "flow", 0)?;
    let indent = fnames(ctx_ty, 0).iter().position(|x| x == "indent").or_else(|| cx.fields(ctx_ty, 0).iter().enumerate().position(|(i, t)| is_usize(*t) && i != flow))?;
    Some(Lay {
        scanner, stats: vec![ps], stats_ty, save: vec![pk, pv], save_ty, indents: vec![pc, pi],
        flow: vec![pc, Pe::F(flow as u32)], indent: vec![pc, Pe::F(indent as u32)], started: vec![pc, named(cx, ctx_ty, "started").or_else(|| only(cx, ctx_ty, is_bool))?.0],
        allowed: vec![named(cx, scanner, "simple_key_allowed").or_else(|| only(cx, scanner, is_bool))?.0], state: vec![pst], state_ty,
        r: nth_num(cx, stats_ty, "read", 0)?, l: nth_num(cx, stats_ty, "lines", 1)?, c: nth_num(cx, stats_ty, "column", 2)?,
    })
}

#[derive(Default)]
struct Sh { ws: Option<Instance>, ws_lines: bool, first: Class, saved: bool, lay: Option<Lay>, scanner: Option<CellId>, queue_push: Option<Instance>, next: Option<Instance>, finds: BTreeMap<(&'static str, String), String>, undecided: BTreeMap<String, String>, nob: BTreeMap<&'static str, u64>, subs: BTreeSet<String>, entry_sub: BTreeMap<String, u64> }
struct Hk(Rc<RefCell<Sh>>);

/// The part of the scanner a function belongs to, when it is a sub-scanner that is summarised.
fn sub_of(name: &str) -> Option<&'static str> {
    for (p, k) in [("yary::scanner::scalar::flow::", "flow scalar"), ("yary::scanner::scalar::plain::", "plain scalar"), ("yary::scanner::scalar::block::", "block scalar"), ("yary::scanner::tag::", "tag"), ("yary::scanner::directive::", "directive"), ("yary::scanner::anchor::", "anchor")] {
        if name.starts_with(p) { return Some(k) }
    }
    None
}
const SUBS: [&str; 6] = ["flow scalar", "plain scalar", "block scalar", "tag", "directive", "anchor"];

fn join_path(a: &[Pe], b: &[Pe]) -> Vec<Pe> { a.iter().chain(b.iter()).cloned().collect() }
fn int(cx: &Cx, st: &State, v: &Val) -> Option<Lin> { let mut s = st.clone(); match v { Val::Int(l) => Some(st.norm(cx, l)), v => crate::ai::to_lin(cx, &mut s, &cx.expand(v)).ok().map(|l| st.norm(cx, &l)) } }

#[derive(Clone, Debug)]
pub struct Pos { r: Lin, l: Lin, c: Lin }
fn pos_of(cx: &Cx, st: &State, lay: &Lay, v: &Val) -> Option<Pos> { Some(Pos { r: int(cx, st, &field(cx, v, 0, lay.r))?, l: int(cx, st, &field(cx, v, 0, lay.l))?, c: int(cx, st, &field(cx, v, 0, lay.c))? }) }

impl Sh {
    fn rd(&self, cx: &Cx, st: &State, p: &[Pe]) -> R<Val> { st.read(cx, Root::Cell(self.scanner.unwrap()), p) }
    fn pos(&self, cx: &Cx, st: &State) -> Option<Pos> { let l = self.lay.as_ref()?; let v = self.rd(cx, st, &l.stats).ok()?; pos_of(cx, st, l, &v) }
    fn num(&self, cx: &Cx, st: &State, p: &[Pe]) -> Option<Lin> { int(cx, st, &self.rd(cx, st, p).ok()?) }
    fn vec(&self, cx: &Cx, st: &State) -> Option<(Lin, Option<Val>)> {
        let l = self.lay.as_ref()?;
        let v = cx.expand(&self.rd(cx, st, &l.indents).ok()?);
        match v { Val::Obj(o) => match &*o { Obj::Vec { base, elems, .. } => Some((st.norm(cx, &crate::ai::exec::vec_len(base, elems)), elems.last().cloned())), _ => None }, _ => None }
    }
    fn started(&self, cx: &Cx, st: &State) -> Option<bool> {
        let l = self.lay.as_ref()?;
        match cx.expand(&self.rd(cx, st, &l.started).ok()?) { Val::Bool(c) => st.known(cx, &c), _ => None }
    }
    fn find(&mut self, prop: &'static str, key: impl Into<String>, msg: impl Into<String>) { self.finds.entry((prop, key.into())).or_insert(msg.into()); }
    fn ob(&mut self, prop: &'static str, ok: bool, key: impl Into<String>, msg: impl FnOnce() -> String) { *self.nob.entry(prop).or_default() += 1; if !ok { let m = msg(); self.find(prop, key, m) } }
}

fn bump(st: &mut State, k: &'static str, d: i128) { let n = match st.ghost_get(k) { Val::Int(l) => l.k, _ => 0 }; st.ghost_set(k, Val::k(n + d)) }
fn gk(st: &State, k: &'static str) -> i128 { match st.ghost_get(k) { Val::Int(l) => l.k, _ => 0 } }

/// The kind of a queued token.
fn kind_of(cx: &Cx, st: &State, entry: &Val, entry_ty: Ty) -> R<(String, Val)> {
    let i = cx.fields(entry_ty, 0).iter().position(|t| tname(*t).ends_with("::MaybeToken")).ok_or(Stop::Unsup("token entry layout".into()))?;
    let wt = cx.fields(entry_ty, 0)[i];
    let w = field(cx, entry, 0, i);
    if let Val::Top(..) = w { return Ok(("?".into(), w)) }
    let k = var_of(cx, st, &w)?;
    if vname(wt, k) != "Token" { return Ok(("Scalar".into(), w)) }
    let tt = cx.fields(wt, k)[0];
    let t = field(cx, &w, k, 0);
    if let Val::Top(ty, o) = &t {
        if !tname(*ty).ends_with("::Token") { return Ok(("?".into(), t)) }
        let d = cx.disc_id(*ty, *o);
        if st.set_of(cx, d).count() > 1 { return Ok(("?".into(), t)) }
    }
    Ok((vname(tt, var_of(cx, st, &t)?), t))
}

impl Hooks for Hk {
    fn call(&self, cx: &Cx, st: &mut State, name: &str, inst: Instance, args: &[Val], ret: Ty) -> Option<R<Vec<(State, Val)>>> {
        let mut sh = self.0.borrow_mut();
        let lay = sh.lay.clone()?;
        if Some(inst) == sh.queue_push { return Some(self.pushed(&mut sh, cx, st, inst, args)) }
        if let Some(sub) = sub_of(name) {
            if let TyKind::RigidTy(RigidTy::Adt(d, a)) = ret.kind() {
                if d.name().to_string().ends_with("result::Result") {
                    let ok = match a.0.first() { Some(GenericArgKind::Type(t)) => *t, _ => return None };
                    *sh.entry_sub.entry(name.to_string()).or_default() += 1;
                    drop(sh);
                    return Some(self.summary(cx, st, name, sub, inst, args, ok, ret, &lay));
                }
            }
            return None;
        }
        if Some(inst) == sh.ws { let b = sh.ws_lines; let first = sh.first.clone(); drop(sh); return Some(self.whitespace(cx, st, inst, args, &lay, b, &first)) }
        // the stack of indentation levels
        if name.contains("vec::Vec") && !name.contains("yary::") || name.contains("slice::<impl") {
            let Some(Val::Ptr(Ptr { root: Root::Cell(c), path })) = args.first() else { return None };
            if Some(*c) != sh.scanner || *path != lay.indents { return None }
            let last = name.rsplit("::").next().unwrap_or("").to_string();
            match &last[..] {
                "push" => {
                    bump(st, "bal", -1);
                    st.ghost_set("emptied", Val::k(0));
                    st.ghost_set("zok", Val::k(0));
                    let lvl = sh.num(cx, st, &lay.indent).unwrap_or(Lin::k(0));
                    let none = sh.vec(cx, st).map_or(false, |d| st.prove_eq0(cx, &d.0));
                    st.tr(3, Val::agg(vec![Val::Int(lvl.clone()), Val::b(none)]));
                    let outer = entry_part(cx, &args[1], "indent").and_then(|v| int(cx, st, &v));
                    let ok = none || outer.map_or(false, |o| st.prove_eq0(cx, &o.sub(&lvl)));
                    sh.ob("P13", ok, "outer", || "the level around a new block collection is not remembered, so closing it cannot restore that level".into());
                    drop(sh);
                    Some(crate::ai::models::call(cx, st, name, inst, args, ret).unwrap_or(Err(Stop::Unsup(name.into()))))
                }
                "pop" => {
                    let lvl = sh.num(cx, st, &lay.indent);
                    let col = match st.ghost_get("start") { Val::Agg(a) => match &a[2] { Val::Int(c) => Some(c.clone()), _ => None }, _ => None };
                    let flow = sh.num(cx, st, &lay.flow);
                    let is_entry = sh.first.entry();
                    drop(sh);
                    let block = flow.map_or(false, |f| st.prove_eq0(cx, &f));
                    let shallow = block && matches!((&lvl, &col), (Some(l), Some(c)) if st.prove(cx, &l.sub(c).addk(-1)));
                    let level = block && !is_entry && matches!((&lvl, &col), (Some(l), Some(c)) if st.prove_eq0(cx, &l.sub(c)));
                    let r = crate::ai::models::call(cx, st, name, inst, args, ret).unwrap_or(Err(Stop::Unsup(name.into())));
                    Some(r.and_then(|v| {
                        let mut out = vec![];
                        for (s, v) in v {
                            let alts = match var_of(cx, &s, &v) { Ok(_) => vec![s], Err(Stop::Fork(a)) => a, Err(e) => return Err(e) };
                            for mut s in alts {
                                if var_of(cx, &s, &v)? == 0 { s.ghost_set("emptied", Val::k(1)) } else {
                                    bump(&mut s, "bal", 1);
                                    let e = field(cx, &v, 1, 0);
                                    let zero = match entry_part(cx, &e, "zero_indented").map(|v| cx.expand(&v)) { Some(Val::Bool(c)) => s.known(cx, &c) == Some(true), _ => false };
                                    s.ghost_set("zok", Val::k(0));
                                    s.ghost_set("zpop", Val::k(zero as i128));
                                    if !(shallow || level && zero) { s.ghost_set("over", Val::k(1)) }
                                    if !block { s.ghost_set("over", Val::k(3)) }
                                    // levels never grow outwards
                                    if let (Some(o), Some(l)) = (entry_part(cx, &e, "indent").and_then(|v| int(cx, &s, &v)), &lvl) { if !s.assume_ge0(cx, &l.sub(&o)) || !s.assume_ge0(cx, &o) { continue } }
                                }
                                // whether another level is left decides what follows
                                let d = self.0.borrow().vec(cx, &s).map(|d| d.0);
                                match d {
                                    Some(d) => for w in [true, false] { for s in s.assume(cx, &Cond::Ge0(d.addk(-1)), w) { out.push((s, v.clone())) } },
                                    None => out.push((s, v.clone())),
                                }
                            }
                        }
                        Ok(out)
                    }))
                }
                "is_empty" => {
                    let d = sh.vec(cx, st)?.0;
                    let mut out = vec![];
                    for w in [true, false] { for s in st.assume(cx, &Cond::Ge0(d.neg()), w) { out.push((s, Val::b(w))) } }
                    Some(Ok(out))
                }
                "len" | "last" | "first" | "get" | "iter" | "deref" | "deref_mut" | "as_slice" | "as_mut_slice" | "as_ptr" | "as_mut_ptr" | "reserve" | "capacity" => None,
                "last_mut" | "first_mut" | "get_mut" | "index" | "index_mut" => { st.ghost_set("zok", Val::k(0)); None }
                _ => { *cx.unsup.borrow_mut().entry(format!("indentation stack changed through {}", name)).or_default() += 1; None }
            }
        } else { None }
    }
    fn on_head(&self, cx: &Cx, st: &mut State, _name: &str, _bb: usize) -> bool {
        let _ = cx;
        if gk(st, "bal").abs() > 4 {
            self.0.borrow_mut().find("P13", "balance:loop", "a loop opens or closes indentation levels without announcing each");
            return false;
        }
        true
    }
    fn want_return(&self, name: &str) -> bool { name.contains("yary::scanner") }
    // what a function found out about the innermost level is remembered when it returns
    fn on_return(&self, cx: &Cx, st: &mut State, _name: &str, _ret: &Val) {
        let Ok(sh) = self.0.try_borrow() else { return };
        if sh.scanner.is_none() { return }
        if let Some(c) = self.left_open(&sh, cx, st) { if st.assume(cx, &c, true).is_empty() { st.ghost_set("zok", Val::k(1)) } }
    }
    fn skeleton(&self, cx: &Cx, st: &State) -> u64 {
        let mut k = self.depth_class(cx, st);
        for n in ["bal", "over", "zleft", "zpop", "zok", "usable", "emptied", "sub"] { k = k * 64 + (gk(st, n) + 32).clamp(0, 63) as u64 }
        k
    }
}

/// A part of an indentation level.
fn entry_part(cx: &Cx, e: &Val, n: &str) -> Option<Val> {
    let t = ENTRY_TY.with(|t| *t.borrow())?;
    let i = entry_at(cx, t, n)?;
    Some(field(cx, e, 0, i))
}
fn entry_at(cx: &Cx, t: Ty, n: &str) -> Option<usize> {
    if let Some(i) = fnames(t, 0).iter().position(|x| x == n) { return Some(i) }
    let f = cx.fields(t, 0);
    let pick = |is: &dyn Fn(Ty) -> bool, k: usize| f.iter().enumerate().filter(|(_, t)| is(**t)).nth(k).map(|x| x.0);
    match n { "indent" => pick(&is_usize, 0), "line" => pick(&is_usize, 1), "zero_indented" => pick(&is_bool, 0), "kind" => pick(&|t| tname(t).ends_with("::Marker"), 0), _ => None }
}
thread_local! { static ENTRY_TY: RefCell<Option<Ty>> = RefCell::new(None); }

impl Hk {
    /// Is a level open, and does the scanner think so?
    fn depth_class(&self, cx: &Cx, st: &State) -> u64 {
        let sh = match self.0.try_borrow() { Ok(s) => s, Err(_) => return 0 };
        if sh.scanner.is_none() { return 0 }
        let d = match sh.vec(cx, st) { Some((d, _)) => if st.prove_eq0(cx, &d) { 1 } else if st.prove(cx, &d.addk(-1)) { 2 } else { 3 }, None => 0 };
        let f = match st.ghost_get("keep") { Val::Agg(a) => match int(cx, st, &a[5]) { Some(f) => if st.prove_eq0(cx, &f) { 1 } else if st.prove(cx, &f.addk(-1)) { 2 } else { 3 }, None => 0 }, _ => 0 };
        let s = f * 16 + match sh.started(cx, st) { Some(true) => 1, Some(false) => 2, None => 0 };
        d * 4 + s
    }
    /// Whitespace and comments are skipped: what remains is the class of text under analysis.
    fn whitespace(&self, cx: &Cx, st: &mut State, inst: Instance, args: &[Val], lay: &Lay, lines: bool, first: &Class) -> R<Vec<(State, Val)>> {
        let mut out = vec![];
        let ret = inst.body().unwrap().locals()[0].ty;
        let mut e = st.clone();
        e.ghost_set("suberr", Val::k(2));
        out.push((e, Val::err(crate::ai::models::err_payload(cx, ret))));
        let mut s = st.clone();
        if gk(&s, "eaten") != 0 { return Err(Stop::Unsup("whitespace skipped twice".into())) }
        s.ghost_set("eaten", Val::k(1));
        let tys: Vec<Ty> = inst.body().unwrap().arg_locals().iter().map(|l| l.ty).collect();
        let ti = tys.iter().position(|t| is_str_ref(*t)).unwrap();
        let si = tys.iter().position(|t| is_ref(*t) && deref_ty(*t) == lay.stats_ty).unwrap();
        let w = as_view(cx, &mut s, &args[ti])?;
        // positions in the text count from where the token starts
        let amt = w.s.neg();
        let at = Lin::k(0);
        if !(s.assume_ge0(cx, &amt) && s.assume_ge0(cx, &w.e.sub(&at))) { return Ok(out) }
        s.add_bnd(w.buf, at.clone());
        if let Val::Ptr(p) = cx.expand(&args[si]) {
            let v = s.read(cx, p.root, &p.path)?;
            let Some(o) = pos_of(cx, &s, lay, &v) else { return Err(Stop::Unsup("position argument".into())) };
            let mut f = vec![Val::Undef; 3];
            f[lay.r] = Val::Int(o.r.add(&amt));
            let (l, c) = if lines { (Lin::sym(cx.fresh("breaks")), Lin::sym(cx.fresh("column"))) } else { (Lin::k(0), amt.clone()) };
            if lines && !(s.assume_ge0(cx, &l.addk(-1)) && s.assume_ge0(cx, &amt.sub(&l)) && s.assume_ge0(cx, &c) && s.assume_ge0(cx, &amt.sub(&c).addk(-1))) { return Ok(out) }
            f[lay.l] = Val::Int(o.l.add(&l));
            f[lay.c] = Val::Int(if lines { c.clone() } else { o.c.add(&c) });
            s.write(cx, p.root, &p.path, Val::agg(f))?;
            let here = self.0.borrow().pos(cx, &s).ok_or(Stop::Unsup("scanner position".into()))?;
            s.ghost_set("start", Val::agg(vec![Val::Int(here.r.add(&amt)), Val::Int(here.l.add(&l)), Val::Int(if lines { c } else { here.c.add(&c) }), Val::Int(at.clone()), Val::k(lines as i128)]));
        }
        if starts_with(cx, &mut s, w.buf, &at, &w.e, first) {
            // is a key saved before still usable here?
            let mut v = vec![(s, vec![])];
            if let (Val::Agg(k), Val::Agg(t0), true) = (v[0].0.ghost_get("keep"), v[0].0.ghost_get("start"), self.0.borrow().saved) {
                let i = |s: &State, v: &Val| int(cx, s, v).unwrap_or(Lin::k(0));
                let (kr, kl, r, l) = (i(&v[0].0, &k[7]), i(&v[0].0, &k[8]), i(&v[0].0, &t0[0]), i(&v[0].0, &t0[1]));
                v = split(cx, v, &match &k[11] { Val::Top(t, o) => Cond::In(cx.disc_id(*t, *o), variant_set(*t, &["Yes", "Required"])), _ => Cond::K(false) });
                v = split(cx, v, &Cond::Ge0(kl.sub(&l)));
                v = split(cx, v, &Cond::Ge0(kr.addk(1024).sub(&r)));
            }
            // does the token start in the first column?
            if let Val::Agg(t0) = v[0].0.ghost_get("start") { let c = lin_of(&t0[2]); v = split(cx, v, &Cond::Ge0(c.neg())); }
            for (mut s, b) in v {
                s.ghost_set("usable", Val::k(b.iter().enumerate().map(|(i, b)| (*b as i128) << i).sum()));
                out.push((s, Val::ok(Val::Int(amt.clone()))))
            }
        }
        Ok(out)
    }
    /// A token is queued.
    fn pushed(&self, sh: &mut Sh, cx: &Cx, st: &mut State, inst: Instance, args: &[Val]) -> R<Vec<(State, Val)>> {
        let et = inst.body().unwrap().arg_locals()[1].ty;
        let (kind, tok) = kind_of(cx, st, &args[1], et)?;
        let mi = cx.fields(et, 0).iter().position(|t| matches!(t.kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::Usize)))).ok_or(Stop::Unsup("token entry layout".into()))?;
        let mark = int(cx, st, &field(cx, &args[1], 0, mi)).ok_or(Stop::Unsup("token position".into()))?;
        let here = sh.pos(cx, st).ok_or(Stop::Unsup("scanner position".into()))?;
        let lay = sh.lay.clone().unwrap();
        let flow = sh.num(cx, st, &lay.flow).ok_or(Stop::Unsup("flow level".into()))?;
        match &kind[..] {
            "BlockEnd" => {
                bump(st, "bal", -1);
                sh.ob("P13", st.prove_eq0(cx, &mark.sub(&here.r)), "mark:BlockEnd", || format!("a BlockEnd is queued at {} instead of at the current position", show(cx, &Val::Int(mark.clone()))));
            }
            _ => {
                if kind == "BlockSequenceStart" || kind == "BlockMappingStart" { bump(st, "bal", 1) }
                let lvl = sh.num(cx, st, &lay.indent).unwrap_or(Lin::k(0));
                let (depth, top) = sh.vec(cx, st).ok_or(Stop::Unsup("indentation stack".into()))?;
                let none = st.prove_eq0(cx, &depth);
                let e = Val::b(st.ghost_get("emptied") == Val::k(1) || st.prove_eq0(cx, &depth));
                // a sequence at its mapping's column, still open although the text is no entry of it
                if let Some(c) = self.left_open(&sh, cx, st) { if !st.assume(cx, &c, true).is_empty() { st.ghost_set("zleft", Val::k(1)) } }
                st.ghost_set("first", Val::k(1));
                st.tr(1, Val::agg(vec![Val::k(KINDS.iter().position(|k| *k == kind).map(|k| k as i128).unwrap_or(-1)), Val::Int(mark), Val::Int(here.r), Val::Int(here.l), Val::Int(here.c), Val::Int(flow), Val::Int(lvl), e, tok, Val::b(none)]));
            }
        }
        Ok(vec![(st.clone(), Val::unit())])
    }
    /// The innermost level is a sequence at its mapping's column and the text at this column is no entry of it.
    fn left_open(&self, sh: &Sh, cx: &Cx, st: &State) -> Option<Cond> {
        if sh.first.entry() || gk(st, "first") != 0 || gk(st, "zpop") != 0 || gk(st, "zok") != 0 { return None }
        let Val::Agg(a) = st.ghost_get("start") else { return None };
        let lvl = sh.num(cx, st, &sh.lay.as_ref()?.indent)?;
        let (depth, top) = sh.vec(cx, st)?;
        let here = Cond::Eq0(lvl.sub(&lin_of(&a[2])));
        // a level not looked at may be one
        let Some(t) = top else { return Some(Cond::Ge0(depth.addk(-1)).and(here)) };
        let Some(Val::Bool(z)) = entry_part(cx, &t, "zero_indented").map(|v| cx.expand(&v)) else { return Some(here) };
        let Some(line) = entry_part(cx, &t, "line").and_then(|v| int(cx, st, &v)) else { return Some(here) };
        let k = match entry_part(cx, &t, "kind") { Some(Val::Top(t, o)) => Cond::In(cx.disc_id(t, o), variant_set(t, &["BlockSequenceStart"])), _ => Cond::K(true) };
        Some(z.and(Cond::Ge0(lin_of(&a[1]).sub(&line).addk(-1))).and(here).and(k))
    }
    /// Anything the sub-scanner may do: fail, or consume some of the text and yield a token.
    fn summary(&self, cx: &Cx, st: &mut State, _name: &str, sub: &'static str, inst: Instance, args: &[Val], ok: Ty, ret: Ty, lay: &Lay) -> R<Vec<(State, Val)>> {
        let id = SUBS.iter().position(|s| *s == sub).unwrap() as i128 + 1;
        let mut e = st.clone();
        e.ghost_set("sub", Val::k(id));
        e.ghost_set("suberr", Val::k(1));
        let mut s = st.clone();
        s.ghost_set("sub", Val::k(id));
        // what is consumed counts from where the token starts
        let from = match s.ghost_get("start") { Val::Agg(a) => lin_of(&a[0]), _ => Lin::k(0) };
        // text argument
        let tys: Vec<Ty> = inst.body().map(|b| b.arg_locals().iter().map(|l| l.ty).collect()).unwrap_or_default();
        let mut text: Option<View> = None;
        let mut moved: Option<Lin> = None;
        let mut bools = vec![];
        for (t, a) in tys.iter().zip(args) {
            if is_str_ref(*t) { if text.is_none() { text = as_view(cx, &mut s, a).ok() } }
            else if is_ref(*t) && is_str_ref(deref_ty(*t)) {
                if let Val::Ptr(p) = cx.expand(a) {
                    let v = s.read(cx, p.root, &p.path)?;
                    let w = as_view(cx, &mut s, &v)?;
                    let to = Lin::sym(cx.fresh("reached")).sub(&from);
                    let n = w.s.add(&to);
                    if !(s.assume_ge0(cx, &to) && s.assume_ge0(cx, &w.e.sub(&n))) { return Err(Stop::Dead) }
                    s.add_bnd(w.buf, n.clone());
                    s.write(cx, p.root, &p.path, Val::View(View { buf: w.buf, s: n, e: w.e.clone() }))?;
                    moved = Some(to); text = Some(w);
                }
            }
            else if matches!(t.kind(), TyKind::RigidTy(RigidTy::Bool)) { bools.push(a.clone()) }
        }
        s.tr(2, Val::agg(vec![Val::k(id), Val::agg(bools.clone()), text.clone().map(Val::View).unwrap_or(Val::Undef)]));
        e.tr(2, Val::agg(vec![Val::k(id), Val::agg(bools), text.clone().map(Val::View).unwrap_or(Val::Undef)]));
        let has_amt = match ok.kind() { TyKind::RigidTy(RigidTy::Tuple(v)) => v.iter().position(|t| matches!(t.kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::Usize)))).map(|i| (v.len(), i, v.clone())), _ => None };
        let payload = if let (Some((_, i, v)), Some(w)) = (&has_amt, &text) {
            let amt = Lin::sym(cx.fresh("reached")).sub(&from);
            if !(s.assume_ge0(cx, &amt) && s.assume_ge0(cx, &w.len().sub(&amt))) { return Err(Stop::Dead) }
            s.add_bnd(w.buf, w.s.add(&amt));
            moved = Some(amt.clone());
            Val::agg(v.iter().enumerate().map(|(k, t)| if k == *i { Val::Int(amt.clone()) } else { Val::Top(*t, cx.fresh(sub)) }).collect())
        } else { Val::Top(ok, cx.fresh(sub)) };
        for (t, a) in tys.iter().zip(args) {
            if !(is_ref(*t) && deref_ty(*t) == lay.stats_ty) { continue }
            if let Val::Ptr(p) = cx.expand(a) {
                let v = s.read(cx, p.root, &p.path)?;
                let Some(o) = pos_of(cx, &s, lay, &v) else { return Err(Stop::Unsup("position argument".into())) };
                let (l, c) = (Lin::sym(cx.fresh("lines")), Lin::sym(cx.fresh("column")));
                let r = match &moved { Some(m) => o.r.add(m), None => Lin::sym(cx.fresh("read")) };
                let lim = Lin::k(1 << 61);
                if !(s.assume_ge0(cx, &l.sub(&o.l)) && s.assume_ge0(cx, &c) && s.assume_ge0(cx, &lim.sub(&c)) && s.assume_ge0(cx, &lim.sub(&l)) && s.assume_ge0(cx, &r.sub(&o.r))) { return Err(Stop::Dead) }
                let mut f = vec![Val::Undef; 3];
                f[lay.r] = Val::Int(r); f[lay.l] = Val::Int(l); f[lay.c] = Val::Int(c);
                s.write(cx, p.root, &p.path, Val::agg(f))?;
            }
        }
        let ev = crate::ai::models::err_payload(cx, ret);
        Ok(vec![(e, Val::err(ev)), (s, Val::ok(payload))])
    }
}

const KINDS: [&str; 21] = ["StreamStart", "StreamEnd", "VersionDirective", "TagDirective", "DocumentStart", "DocumentEnd", "BlockSequenceStart", "BlockMappingStart", "BlockEnd", "FlowSequenceStart", "FlowSequenceEnd", "FlowMappingStart", "FlowMappingEnd", "BlockEntry", "FlowEntry", "Key", "Value", "Alias", "Anchor", "Tag", "Scalar"];

/// Restrict the text at a position to begin with bytes of the given sets (none: the text ends there).
fn starts_with(cx: &Cx, st: &mut State, buf: BufId, at: &Lin, end: &Lin, cls: &Class) -> bool {
    let first = &cls.first;
    if cls.end && !st.assume_ge0(cx, &at.addk(first.len() as i128).sub(end)) { return false }
    if first.is_empty() { return true }
    st.ghost_set("pin", Val::agg([0, 4].map(|k| Val::View(View { buf, s: at.addk(k), e: end.clone() })).to_vec()));
    if !st.assume_ge0(cx, &end.sub(at).addk(-(first.len() as i128))) { return false }
    for (k, f) in first.iter().enumerate() {
        if let Val::Int(l) = st.byte_at(cx, buf, &at.addk(k as i128)) {
            if let Some(i) = st.norm(cx, &l).as_sym() { if !st.assume_in(cx, i, f) { return false } }
        }
    }
    true
}

pub struct Run { cx: Cx, sh: Rc<RefCell<Sh>>, lay: Lay, rets: Vec<(State, Val)>, ret: Ty }

/// The step function: takes the scanner, the text and the token queue, and is called by the scanner's entry point.
pub fn step(p: &Program) -> Option<Instance> {
    let is = |i: &Instance| {
        if !p.names[i].starts_with("yary::scanner::") { return false }
        let Some(b) = i.body() else { return false };
        let a = b.arg_locals();
        a.len() == 4 && is_ref(a[0].ty) && tname(deref_ty(a[0].ty)).ends_with("::Scanner") && is_ref(a[2].ty) && is_str_ref(deref_ty(a[2].ty)) && is_ref(a[3].ty) && tname(deref_ty(a[3].ty)).ends_with("::Queue")
    };
    // the closest one the entry point calls, itself or through helpers
    let mut at: Vec<Instance> = p.insts.iter().filter(|j| p.names[j].ends_with("::Scanner::scan_tokens")).cloned().collect();
    let mut seen: std::collections::HashSet<Instance> = at.iter().cloned().collect();
    while !at.is_empty() {
        let mut next = vec![];
        for j in &at { for e in p.edges.get(j).into_iter().flatten() { if p.names.get(&e.to).map_or(false, |n| n.contains("yary::scanner::")) && seen.insert(e.to) { next.push(e.to) } } }
        if let Some(i) = p.insts.iter().find(|i| next.contains(i) && is(i)) { return Some(*i) }
        at = next;
    }
    None
}

/// The function that skips whitespace and comments.
fn skipper(p: &Program, stats_ty: Ty) -> Option<Instance> {
    p.insts.iter().find(|i| {
        let n = &p.names[i];
        if !n.starts_with("yary::scanner::") || !n.contains("whitespace") { return false }
        let Some(b) = i.body() else { return false };
        let a = b.arg_locals();
        let ret = b.locals()[0].ty;
        tname(ret).ends_with("result::Result") && matches!(ty_args(ret).first().map(|t| t.kind()), Some(TyKind::RigidTy(RigidTy::Uint(UintTy::Usize))))
            && a.iter().filter(|l| is_str_ref(l.ty)).count() == 1 && a.iter().filter(|l| is_ref(l.ty) && deref_ty(l.ty) == stats_ty).count() == 1
    }).cloned()
}

fn run(p: &Program, next: Instance, cls: &Class, saved: bool, lines: bool, open: bool) -> Result<Run, String> {
    let sh: Rc<RefCell<Sh>> = Default::default();
    let cx = Cx::new(Box::new(Hk(sh.clone())));
    cx.id_l(IdKey::Fresh(0), "zero".into());
    cx.budget.set(20_000_000);
    cx.lim.set(std::env::var("LIM").ok().and_then(|l| l.parse().ok()).unwrap_or(32));
    let b = next.body().unwrap();
    let a: Vec<Ty> = b.arg_locals().iter().map(|l| l.ty).collect();
    let ret = b.locals()[0].ty;
    let sty = deref_ty(a[0]);
    let lay = layout(&cx, sty).ok_or("the layout of the scanner's state is not recognised")?;
    let push = p.insts.iter().find(|i| { let n = &p.names[i]; n.starts_with("yary::") && n.ends_with("::Queue::push") && i.body().map_or(false, |b| tname(b.arg_locals()[1].ty).ends_with("::TokenEntry")) }).cloned().ok_or("the queue's push is not found")?;
    let mut st = State::new();
    let s = cx.cell_new(CellInit::Val(Val::Top(sty, cx.fresh("scanner"))));
    { let mut h = sh.borrow_mut(); h.lay = Some(lay.clone()); h.scanner = Some(s); h.queue_push = Some(push); h.next = Some(next); h.ws = skipper(p, lay.stats_ty); h.ws_lines = lines; h.saved = saved; h.first = cls.clone(); }
    let t = cx.fresh("text");
    let buf = cx.buf_sym(t, true);
    let len = if cls.end { Lin::k(cls.first.len() as i128) } else { Lin::sym(cx.len_id(t)) };
    st.add_bnd(buf, Lin::k(0));
    let ptr = |c: CellId| Val::Ptr(Ptr { root: Root::Cell(c), path: vec![] });
    let blank = if sh.borrow().ws.is_some() { Lin::sym(cx.fresh("blank")) } else { Lin::k(0) };
    st.add_bnd(buf, blank.neg());
    let base = cx.cell_new(CellInit::Val(Val::View(View { buf, s: blank.neg(), e: len.clone() })));
    let q = cx.cell_new(CellInit::Val(Val::Top(deref_ty(a[3]), cx.fresh("queue"))));
    let un = |x: &str| -> String { format!("cannot set up {}", x) };
    let h = sh.borrow();
    let pos = h.pos(&cx, &st).ok_or(un("the position"))?;
    let flow = h.num(&cx, &st, &lay.flow).ok_or(un("the flow level"))?;
    let raw_flow = h.rd(&cx, &st, &lay.flow).map_err(|_| un("the flow level"))?;
    let indent = h.num(&cx, &st, &lay.indent).ok_or(un("the indentation"))?;
    let bid = |v: R<Val>| -> Option<Id> { match v.ok()? { Val::Bool(Cond::In(i, _)) => Some(i), Val::Top(t, o) => match cx.expand(&Val::Top(t, o)) { Val::Bool(Cond::In(i, _)) => Some(i), _ => None }, _ => None } };
    let (depth, _) = h.vec(&cx, &st).ok_or(un("the indentation stack"))?;
    match h.rd(&cx, &st, &lay.indents).ok().map(|v| cx.expand(&v)) { Some(Val::Obj(o)) => match &*o { Obj::Vec { ty, .. } => ENTRY_TY.with(|t| *t.borrow_mut() = ty_args(*ty).first().cloned()), _ => {} }, _ => {} }
    let allowed = bid(h.rd(&cx, &st, &lay.allowed)).ok_or(un("the key permission"))?;
    let state = match h.rd(&cx, &st, &lay.state) { Ok(Val::Top(t, o)) => cx.disc_id(t, o), _ => return Err(un("the stream state")) };
    // the saved key
    let kt = ty_args(lay.save_ty)[0];
    let ki = cx.fields(kt, 0).iter().position(|t| *t == lay.stats_ty).ok_or(un("the saved key"))?;
    let pi = cx.fields(kt, 0).iter().position(|t| *t != lay.stats_ty).ok_or(un("the saved key"))?;
    let possible = Val::Top(cx.fields(kt, 0)[pi], cx.fresh("possible"));
    let poss = if let Val::Top(t, o) = &possible { cx.disc_id(*t, *o) } else { 0 };
    let kpos = Pos { r: Lin::sym(cx.fresh("key.read")), l: Lin::sym(cx.fresh("key.lines")), c: Lin::sym(cx.fresh("key.column")) };
    let kv = if saved {
        let mut ks = vec![Val::Undef; 3];
        ks[lay.r] = Val::Int(kpos.r.clone()); ks[lay.l] = Val::Int(kpos.l.clone()); ks[lay.c] = Val::Int(kpos.c.clone());
        let mut f = vec![Val::Undef; 2];
        f[ki] = Val::agg(ks); f[pi] = possible.clone();
        Val::some(Val::agg(f))
    } else { Val::none() };
    drop(h);
    st.write(&cx, Root::Cell(s), &lay.save, kv).map_err(|_| un("the saved key"))?;
    st.write(&cx, Root::Cell(s), &lay.started, Val::b(open)).map_err(|_| un("the indentation"))?;
    let lim = Lin::k(1 << 60);
    let live = variant_set(lay.state_ty, &["Start", "Stream"]);
    if live.count() != 2 { return Err(un("the stream state")) }
    let mut ok = st.assume_in(&cx, state, &live);
    ok &= if open { st.assume_ge0(&cx, &depth.addk(-1)) } else { st.assume_ge0(&cx, &depth.neg()) };
    ok &= st.assume_ge0(&cx, &lim.sub(&len)) && st.assume_ge0(&cx, &blank) && st.assume_ge0(&cx, &lim.sub(&blank));
    for x in [&pos.r, &pos.l, &pos.c, &flow, &indent, &depth] { ok &= st.assume_ge0(&cx, x) && st.assume_ge0(&cx, &lim.sub(x)) }
    ok &= st.assume_ge0(&cx, &pos.r.sub(&pos.l)) && st.assume_ge0(&cx, &pos.r.sub(&pos.c));
    if saved { for x in [&kpos.r, &kpos.l, &kpos.c] { ok &= st.assume_ge0(&cx, x) } ok &= st.assume_ge0(&cx, &pos.r.sub(&kpos.r)) && st.assume_ge0(&cx, &pos.l.sub(&kpos.l)) && st.assume_ge0(&cx, &lim.sub(&kpos.c)); }
    st.ghost_set("bal", Val::k(0));
    st.ghost_set("emptied", Val::k(0));
    st.ghost_set("sub", Val::k(0));
    st.ghost_set("suberr", Val::k(0));
    st.ghost_set("keep", Val::agg(vec![ptr(s), ptr(base), Val::Int(pos.r.clone()), Val::Int(pos.l.clone()), Val::Int(pos.c.clone()), raw_flow, Val::Int(indent.clone()), Val::Int(kpos.r.clone()), Val::Int(kpos.l.clone()), Val::Int(kpos.c.clone()), Val::Bool(Cond::In(allowed, Set::one(1))), possible, Val::Int(Lin::sym(state)), Val::Int(blank.neg())]));
    st.ghost_set("over", Val::k(0));
    st.ghost_set("zleft", Val::k(0));
    st.ghost_set("zpop", Val::k(0));
    st.ghost_set("zok", Val::k(0));
    st.ghost_set("first", Val::k(0));
    st.ghost_set("eaten", Val::k(0));
    if sh.borrow().ws.is_none() {
        ok &= !lines && starts_with(&cx, &mut st, buf, &Lin::k(0), &len, cls);
        st.ghost_set("start", Val::agg(vec![Val::Int(pos.r.clone()), Val::Int(pos.l.clone()), Val::Int(pos.c.clone()), Val::k(0), Val::k(0)]));
    } else {
        st.ghost_set("start", Val::Undef);
    }
    if !ok { return Err(un("the state")) }
    let args = vec![ptr(s), Val::Top(a[1], cx.fresh("opts")), ptr(base), ptr(q)];
    let rets = cx.run_fn(next, args, st).map_err(|e| match e { Stop::Unsup(u) => u, Stop::Panic(u) => u, _ => "no result".into() })?;
    Ok(Run { cx, sh, lay, rets, ret })
}

/// A class of texts a token can start with.
#[derive(Clone, Default)]
pub struct Class { name: String, first: Vec<Set>, end: bool, white1: bool, triple: bool, flowind: bool }
impl Class {
    fn entry(&self) -> bool { self.b0() == Some(b'-') && self.white1 }
    fn b0(&self) -> Option<u8> { self.first.first().and_then(|s| s.single()).map(|b| b as u8).filter(|b| *b < 0x80) }
}

/// What can follow some bytes, told apart by whether it is white space, a line break or the end.
fn follow(cut: &Set) -> Vec<(String, Vec<Set>, bool, bool)> {
    let plain = Set::from_fn(|b| matches!(b, 9 | 10 | 13 | 32));
    let cont = Set::range(0x80, 0xBF);
    let (x85, x80, ls, c2, e2) = (Set::one(0x85), Set::one(0x80), Set::range(0xA8, 0xA9), Set::one(0xC2), Set::one(0xE2));
    let rest = Set::upto(0x80).or(&Set::range(0xC2, 0xF4)).and(&plain.or(&c2).or(&e2).or(cut).not());
    vec![
        ("the end".into(), vec![], true, true), ("white space".into(), vec![plain], false, true), ("another character".into(), vec![rest], false, false),
        ("U+0085".into(), vec![c2, x85], false, true), ("C2 xx".into(), vec![c2, cont.and(&x85.not())], false, false),
        ("U+2028".into(), vec![e2, x80, ls], false, true), ("E2 80 xx".into(), vec![e2, x80, cont.and(&ls.not())], false, false), ("E2 xx".into(), vec![e2, cont.and(&x80.not())], false, false),
    ]
}

/// The classes of text a token can start with.
fn classes() -> Vec<Class> {
    let ws = Set::from_fn(|b| matches!(b, 9 | 10 | 13 | 32 | 35));
    let one = |c: u8| Set::one(c as usize);
    let none = Set::one(0).and(&Set::one(0).not());
    let mut cl: Vec<Class> = vec![Class { name: "the end of the text".into(), end: true, ..Default::default() }];
    let mut put = |name: String, first: Vec<Set>, end: bool, white1: bool, triple: bool, flowind: bool| cl.push(Class { name, first, end, white1, triple, flowind });
    let flowi = Set::from_fn(|b| matches!(b, 0x2C | 0x5B | 0x5D | 0x7B | 0x7D));
    let mut rest = ws.not();
    for c in b"%{}[],&*!|>'\"@`" { put(format!("{:?}", *c as char), vec![one(*c)], false, false, false, false) }
    for c in b"%-.{}[],?:&*!|>'\"@`" { rest = rest.and(&one(*c).not()) }
    for c in b"?:" { for (n, f, e, w) in follow(&none) { put(format!("{:?} and {}", *c as char, n), [vec![one(*c)], f].concat(), e, w, false, false) } }
    for c in b"-." {
        let dash = *c == b'-';
        let o = one(*c);
        if dash {
            for (n, f, e, w) in follow(&flowi.or(&o)) { put(format!("'-' and {}", n), [vec![o], f].concat(), e, w, false, false) }
            put("'-' and a flow indicator".into(), vec![o, flowi], false, false, false, true);
        } else {
            put("'.'".into(), vec![o], true, false, false, false);
            put("'.' and another character".into(), vec![o, o.not()], false, false, false, false);
        }
        let two = format!("'{0}{0}'", *c as char);
        put(two.clone(), vec![o, o], true, false, false, false);
        put(format!("{} and another character", two), vec![o, o, o.not()], false, false, false, false);
        for (n, f, e, w) in follow(&none) { put(format!("'{0}{0}{0}' and {1}", *c as char, n), [vec![o, o, o], f].concat(), e, false, w, false) }
    }
    for b in [0xC2, 0xE2] { rest = rest.and(&Set::one(b).not()) }
    put("an ASCII character".into(), vec![rest.and(&Set::upto(128))], false, false, false, false);
    put("a wide character".into(), vec![rest.and(&Set::range(0xC3, 0xF4))], false, false, false, false);
    for (n, f, _, w) in follow(&none) { if f.len() > 1 && !w { put(n, f, false, false, false, false) } }
    cl
}

/// All ways the conditions can turn out in a state.
fn split(cx: &Cx, v: Vec<(State, Vec<bool>)>, c: &Cond) -> Vec<(State, Vec<bool>)> {
    let mut out = vec![];
    for (s, b) in v {
        for w in [true, false] { for n in s.assume(cx, c, w) { let mut b = b.clone(); b.push(w); out.push((n, b)) } }
    }
    out
}
#[derive(Clone, Debug)]
struct Tok { kind: String, mark: Lin, flow: Lin, lvl: Lin, emptied: bool, none: bool }
fn lin_of(v: &Val) -> Lin { match v { Val::Int(l) => l.clone(), _ => Lin::k(0) } }

fn variant_set(t: Ty, names: &[&str]) -> Set {
    let n = match t.kind() { TyKind::RigidTy(RigidTy::Adt(d, _)) => d.variants().len(), _ => 0 };
    Set::from_fn(|i| i < n && names.contains(&&vname(t, i as u32)[..]))
}

#[derive(Default)]
pub struct Judged { pub finds: BTreeMap<(&'static str, String), String>, pub nob: BTreeMap<&'static str, u64>, pub undecided: BTreeMap<String, String>, pub runs: u64, pub exits: u64, pub cases: u64, pub seen: BTreeMap<String, u64>, pub analysed: BTreeSet<String>, pub subs: BTreeSet<String>, pub steps: u64 }
const PROPS: [&str; 6] = ["P13", "P19", "P20", "P23", "P24", "P16"];
impl Judged {
    fn lines(&self) -> Vec<String> {
        let mut o = vec![format!("C\t{}\t{}\t{}\t{}", self.runs, self.exits, self.cases, self.steps)];
        for ((p, k), m) in &self.finds { o.push(format!("F\t{}\t{}\t{}", p, k, m)) }
        for (p, n) in &self.nob { o.push(format!("N\t{}\t{}", p, n)) }
        for (k, m) in &self.undecided { o.push(format!("U\t{}\t{}", k, m)) }
        for (k, n) in &self.seen { o.push(format!("S\t{}\t{}", k, n)) }
        for k in &self.analysed { o.push(format!("A\t{}", k)) }
        for k in &self.subs { o.push(format!("B\t{}", k)) }
        o
    }
    fn add(&mut self, l: &str) {
        let f: Vec<&str> = l.split('\t').collect();
        let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
        let g = |i: usize| f.get(i).map(|x| x.to_string()).unwrap_or_default();
        let prop = |x: &str| PROPS.iter().find(|p| **p == x).cloned().unwrap_or("P13");
        match f[0] {
            "C" => { self.runs += n(1); self.exits += n(2); self.cases += n(3); self.steps += n(4) }
            "F" => { self.finds.entry((prop(f[1]), g(2))).or_insert(g(3)); }
            "N" => *self.nob.entry(prop(f[1])).or_default() += n(2),
            "U" => { self.undecided.insert(g(1), g(2)); }
            "S" => *self.seen.entry(g(1)).or_default() += n(2),
            "A" => { self.analysed.insert(g(1)); }
            "B" => { self.subs.insert(g(1)); }
            _ => {}
        }
    }
    fn ob(&mut self, prop: &'static str, ok: bool, key: impl Into<String>, msg: impl FnOnce() -> String) -> bool { *self.nob.entry(prop).or_default() += 1; if !ok { let (k, m) = (key.into(), msg()); if std::env::var("WHY").map_or(false, |w| k.starts_with(&w)) { WHY.with(|w| w.set(true)) } self.finds.entry((prop, k)).or_insert(m); } ok }
}

thread_local! { static WHY: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
fn judge(r: &Run, cls: &Class, lines: bool, saved: bool, out: &mut Judged) {
    let class = &cls.name[..];
    let cx = &r.cx;
    let lay = &r.lay;
    let sh = r.sh.borrow();
    for ((p, k), m) in &sh.finds { out.finds.entry((*p, k.clone())).or_insert(m.clone()); }
    for (p, n) in &sh.nob { *out.nob.entry(*p).or_default() += n }
    for (k, m) in &sh.undecided { out.undecided.insert(k.clone(), m.clone()); }
    for (u, _) in cx.unsup.borrow().iter() { out.undecided.insert(format!("unsup:{}", u), format!("{} (text: {})", u, class)); }
    out.analysed.extend(cx.analysed.borrow().iter().cloned());
    out.subs.extend(sh.entry_sub.keys().cloned());
    out.runs += 1; out.exits += r.rets.len() as u64; out.steps += cx.steps.get();
    let err_ty = ty_args(r.ret).get(1).cloned().unwrap_or(r.ret);
    let kt = ty_args(lay.save_ty)[0];
    let kt_fields = cx.fields(kt, 0);
    let (ki, pi) = (kt_fields.iter().position(|t| *t == lay.stats_ty).unwrap(), kt_fields.iter().position(|t| *t != lay.stats_ty).unwrap());
    let usable_set = variant_set(kt_fields[pi], &["Yes", "Required"]);
    let required_set = variant_set(kt_fields[pi], &["Required"]);
    if usable_set.is_empty() || required_set.is_empty() { out.undecided.insert("key states".into(), "the states of a saved key are not recognised".into()); return }
    for (st, v) in &r.rets {
        if !st.taint.is_empty() { out.undecided.insert("taint".into(), format!("a result depends on {}", st.taint.iter().next().unwrap())); continue }
        let Val::Agg(keep) = st.ghost_get("keep") else { out.undecided.insert("keep".into(), "the state before the step is lost".into()); continue };
        let kl = |i: usize| int(cx, &st, &keep[i]).unwrap_or(Lin::k(0));
        let (ent_flow, ent_allowed) = (kl(5), match &keep[10] { Val::Bool(c) => c.clone(), _ => Cond::K(true) });
        let kp = if saved { Some(Pos { r: kl(7), l: kl(8), c: kl(9) }) } else { None };
        let poss_in = |x: &Set| match &keep[11] { Val::Top(t, o) => Cond::In(cx.disc_id(*t, *o), *x), Val::Var(k, _) => Cond::K(x.has(*k as usize)), _ => Cond::K(false) };
        let live = variant_set(lay.state_ty, &["Start"]);
        let at_start = match kl(12).as_sym() { Some(i) => Cond::In(i, live), None => Cond::K(live.has(kl(12).k as usize)) };
        // ---- what happened
        let mut st = st.clone();
        let rk = match var_of(cx, &st, v) { Ok(k) => k, Err(_) => { out.undecided.insert("result".into(), "a result could not be told from an error".into()); continue } };
        let mut toks: Vec<Tok> = vec![];
        let mut levels = vec![];
        let mut modes = vec![];
        for (t, x) in st.trace.iter() {
            match (t, x) {
                (1, Val::Agg(a)) => { let k = lin_of(&a[0]).k; toks.push(Tok { kind: if k >= 0 { KINDS[k as usize].into() } else { "?".into() }, mark: lin_of(&a[1]), flow: lin_of(&a[5]), lvl: lin_of(&a[6]), emptied: a[7] == Val::b(true), none: a[9] == Val::b(true) }) }
                (2, Val::Agg(a)) => modes.push((lin_of(&a[0]).k, a[1].clone())),
                (3, Val::Agg(a)) => levels.push((a[0].clone(), a[1].clone())),
                _ => {}
            }
        }
        let sub = gk(&st, "sub");
        let subname = if sub > 0 { SUBS[sub as usize - 1] } else { "" };
        for t in toks.iter_mut() { if t.kind == "?" { t.kind = subname.into() } }
        let suberr = gk(&st, "suberr");
        // ---- P16: the position moves with the text
        {
            let sh = r.sh.borrow();
            let named = rk == 0 || suberr != 0 || { let e = field(cx, v, 1, 0); var_of(cx, &st, &e).map_or(true, |k| vname(err_ty, k) == "Extend") };
            if named {
                let at = match &keep[1] { Val::Ptr(p) => st.read(cx, p.root, &p.path).ok().and_then(|v| as_view(cx, &mut st, &v).ok()).map(|w| w.s), _ => None };
                match (at, sh.pos(cx, &st)) {
                    (Some(at), Some(now)) => {
                        let ok = st.prove_eq0(cx, &now.r.sub(&kl(2)).sub(&at.sub(&kl(13))));
                        out.ob("P16", ok, format!("step:{}", if rk == 0 { toks.last().map(|t| t.kind.clone()).unwrap_or("nothing".into()) } else { "stopping".into() }), || format!("a step that {} moves its position by another amount than its text", if rk == 0 { "succeeds" } else { "stops" }));
                    }
                    _ => { out.undecided.insert("position".into(), "the position or the remaining text could not be read".into()); }
                }
            }
        }
        if suberr == 2 { continue }
        let mut err = String::new();
        if rk == 1 {
            if suberr == 1 { err = "sub".into() }
            else {
                let e = field(cx, v, 1, 0);
                err = match var_of(cx, &st, &e) { Ok(k) => vname(err_ty, k), Err(_) => "?".into() };
                if err == "?" { out.undecided.insert("error".into(), "an error could not be named".into()); continue }
            }
        }
        let start = match st.ghost_get("start") { Val::Agg(a) => Some(Pos { r: lin_of(&a[0]), l: lin_of(&a[1]), c: lin_of(&a[2]) }), _ => None };
        let Some(t0) = start else {
            // before the first whitespace: the start of the stream
            for s in st.assume(cx, &at_start, false) {
                let _ = s;
                out.undecided.insert("start".into(), "a token is scanned without skipping whitespace first".into());
            }
            out.ob("P19", rk == 0 && toks.len() == 1 && toks[0].kind == "StreamStart", "start", || "the first token of a stream is not the stream start".into());
            continue
        };
        if rk == 1 && err == "Extend" {
            out.ob("P24", toks.is_empty(), "extend:token", || format!("a {} is queued although the scanner then asks for more input and starts over", toks[0].kind));
            continue
        }
        // ---- split into cases
        let b0 = cls.b0();
        let mut cs: Vec<(State, Vec<bool>)> = vec![(std::mem::replace(&mut st, State::new()), vec![])];
        cs = split(cx, cs, &Cond::Ge0(ent_flow.addk(-1)));                              // 0: flow
        cs = split(cx, cs, &if lines { Cond::K(true) } else { ent_allowed.clone() }); // 1: allowed
        cs = split(cx, cs, &if matches!(b0, Some(b'-' | b'.' | b'%')) { Cond::Ge0(t0.c.neg()) } else { Cond::K(false) }); // 2: column 0
        for cond in [poss_in(&usable_set), poss_in(&required_set)] { cs = split(cx, cs, &if saved { cond } else { Cond::K(false) }) }
        cs = split(cx, cs, &match &kp { Some(k) => Cond::Ge0(k.l.sub(&t0.l)), None => Cond::K(false) });                   // 5 same line
        cs = split(cx, cs, &match &kp { Some(k) => Cond::Ge0(k.r.addk(1024).sub(&t0.r)), None => Cond::K(false) });        // 6 near
        let mut last: Option<State> = None;
        for (s, b) in cs {
            if WHY.with(|w| w.replace(false)) { if let Some(l) = &last { eprintln!("WHY {} kp {:?} t0 {:?} toks {:?} levels {:?}\n{}", class, kp, t0, toks, levels, crate::ai::dump(cx, l)); std::process::exit(3) } }
            if std::env::var("WHY").is_ok() { last = Some(s.clone()) }
            out.cases += 1;
            let (flow, allowed, col0, w1) = (b[0], b[1], b[2], cls.white1);
            let block = !flow;
            let triple = cls.triple && col0;
            let (maybe, required, inrange) = (b[3], b[4], b[5] && b[6]);
            let usable = maybe && inrange;
            let want = match b0 {
                _ if cls.first.is_empty() => "StreamEnd",
                Some(b'%') => if col0 { "directive" } else { "error" },
                Some(b'-') => if triple { "DocumentStart" } else if w1 { "BlockEntry" } else if flow && cls.flowind { "error" } else { "plain scalar" },
                Some(b'.') => if triple { "DocumentEnd" } else { "plain scalar" },
                Some(b'{') => "FlowMappingStart", Some(b'}') => "FlowMappingEnd", Some(b'[') => "FlowSequenceStart", Some(b']') => "FlowSequenceEnd", Some(b',') => "FlowEntry",
                Some(b'?') => if flow || w1 { "Key" } else { "plain scalar" },
                Some(b':') => if flow || w1 { "Value" } else { "plain scalar" },
                Some(b'&' | b'*') => "anchor", Some(b'!') => "tag",
                Some(b'|' | b'>') => if block { "block scalar" } else { "error" },
                Some(b'\'' | b'"') => "flow scalar", Some(b'@' | b'`') => "error",
                _ => "plain scalar",
            };
            let ctx = if flow { "flow" } else { "block" };
            let illegal = match want { "BlockEntry" => flow || !allowed, "Key" => block && !allowed, "Value" => !usable && block && !allowed, _ => false };
            let expired = maybe && !inrange;
            // ---- P20: a key that ran out
            if rk == 1 && err == "MissingValue" {
                out.ob("P20", required, "missing-value", || format!("MissingValue is reported although no required key is pending (text starting with {} in the {} context)", class, ctx));
                continue
            }
            let must_fail = required && (expired || !matches!(want, "Value" | "error"));
            let keeps = |s: &State| -> Option<(bool, Lin, Val)> {
                let v = sh.rd(cx, s, &lay.save).ok()?;
                let k = var_of(cx, s, &v).ok()?;
                if k == 0 { return Some((false, Lin::k(0), Val::Undef)) }
                let ks = field(cx, &v, 1, 0);
                let p = pos_of(cx, s, lay, &field(cx, &ks, 0, ki))?;
                Some((true, p.r, field(cx, &ks, 0, pi)))
            };
            let Some((has, kr, kposs)) = keeps(&s) else { out.undecided.insert("saved".into(), "the saved key could not be read".into()); continue };
            let same_key = has && kp.as_ref().map_or(false, |k| s.prove_eq0(cx, &kr.sub(&k.r)));
            if rk == 0 && expired && required { out.ob("P20", false, format!("required-expired:{}", want), || format!("a required key that is no longer on this line or within 1024 characters is dropped silently (text starting with {})", class)); continue }
            if rk == 0 && must_fail && !same_key { out.ob("P20", false, format!("required-lost:{}", want), || format!("a required key is forgotten without an error (text starting with {})", class)); continue }
            // ---- P19: what the text starts
            let obs = if rk == 0 { toks.last().map(|t| t.kind.clone()).unwrap_or("nothing".into()) } else {
                match &err[..] { "sub" => subname.to_string(), "UnknownDelimiter" => "error".into(), "InvalidKey" => "Key".into(), "InvalidValue" => "Value".into(), "InvalidBlockEntry" => "BlockEntry".into(), "IntOverflow" if want.starts_with("Flow") && want != "FlowEntry" => want.into(), e => format!("the error {}", e) }
            };
            *out.seen.entry(format!("{} ({})", want, if rk == 0 { "accepted" } else { "rejected" })).or_default() += 1;
            if !out.ob("P19", obs == want, format!("dispatch:{}:{}", class, ctx), || format!("text starting with {} in the {} context{} starts a {}, not a {}", class, ctx, if col0 { " at column 0" } else { "" }, obs, want)) { continue }
            for (id, m) in &modes {
                let Val::Agg(m) = m else { continue };
                let known: Vec<bool> = m.iter().filter_map(|x| match x { Val::Bool(c) => s.known(cx, c), _ => None }).collect();
                let style = match (SUBS[*id as usize - 1], b0) { ("flow scalar", Some(q)) => Some(q == b'\''), ("block scalar", Some(q)) => Some(q == b'>'), _ => None };
                if let (Some(w), [k]) = (style, &known[..]) { out.ob("P19", *k == w, format!("style:{}", class), || format!("a scalar starting with {} is scanned as one of the other style", class)); }
            }
            // ---- P23: legality
            if rk == 1 && matches!(&err[..], "InvalidKey" | "InvalidValue" | "InvalidBlockEntry") { out.ob("P23", illegal, format!("rejected:{}:{}", want, ctx), || format!("a {} is rejected in the {} context although one may start here", want, ctx)); continue }
            if rk == 1 { continue }
            out.ob("P23", !illegal, format!("accepted:{}:{}", want, ctx), || format!("a {} is accepted in the {} context although none may start here", want, ctx));
            let after = match want { "DocumentStart" | "DocumentEnd" | "directive" | "anchor" | "tag" | "flow scalar" | "plain scalar" | "FlowMappingEnd" | "FlowSequenceEnd" => Some(false), "block scalar" | "FlowMappingStart" | "FlowSequenceStart" | "FlowEntry" | "BlockEntry" => Some(true), "Key" => Some(block), "Value" => Some(block && !usable), _ => None };
            if let Some(w) = after {
                let now = sh.rd(cx, &s, &lay.allowed).ok().map(|v| cx.expand(&v)).and_then(|v| match v { Val::Bool(c) => s.known(cx, &c), _ => None });
                out.ob("P23", now == Some(w), format!("after:{}", want), || format!("after a {} in the {} context an implicit key {} start, but the scanner {}", want, ctx, if w { "may" } else { "must not" }, match now { Some(true) => "allows one", Some(false) => "does not allow one", None => "leaves that open" }));
            }
            // ---- flow depth
            let d = match want { "FlowMappingStart" | "FlowSequenceStart" => 1, "FlowMappingEnd" | "FlowSequenceEnd" => -1, _ => 0 };
            if let Some(f) = sh.num(cx, &s, &lay.flow) { out.ob("P19", s.prove_eq0(cx, &f.sub(&ent_flow).addk(-d)), format!("depth:{}", want), || format!("a {} does not change the flow nesting depth by {}", want, d)); }
            // ---- P20: the key token of an implicit key
            let keys: Vec<&Tok> = toks.iter().filter(|t| t.kind == "Key").collect();
            match want {
                "Key" => { out.ob("P20", keys.len() == 1, "explicit", || "an explicit key does not queue exactly one Key".into()); }
                "Value" => {
                    out.ob("P20", keys.len() == usable as usize, format!("value:{}", usable), || format!("a value {} queues {} Key tokens", if usable { "whose implicit key is still possible" } else { "without a possible implicit key" }, keys.len()));
                    if usable && keys.len() == 1 { let k = kp.as_ref().unwrap(); out.ob("P20", s.prove_eq0(cx, &keys[0].mark.sub(&k.r)), "key-position", || "the Key of an implicit key is not queued where that key started".into()); }
                    out.ob("P20", !has, "value:kept", || "a saved key is still pending after its value".into());
                }
                _ => { out.ob("P20", keys.is_empty(), format!("stray:{}", want), || format!("a {} queues a Key", want)); }
            }
            // what is pending afterwards
            if has {
                let fresh = s.prove_eq0(cx, &kr.sub(&t0.r));
                let flow_start = matches!(want, "FlowMappingStart" | "FlowSequenceStart");
                let ps = |x: &Set| -> Option<bool> { match &kposs { Val::Top(t, o) => { let d = s.set_of(cx, cx.disc_id(*t, *o)); if d.subset(x) { Some(true) } else if d.and(x).is_empty() { Some(false) } else { None } } Val::Var(k, _) => Some(x.has(*k as usize)), _ => None } };
                if same_key && !(fresh && allowed) {
                    let now = ps(&usable_set);
                    let drops = matches!(want, "StreamEnd" | "DocumentStart" | "DocumentEnd" | "directive" | "Key" | "FlowMappingEnd" | "FlowSequenceEnd" | "FlowEntry" | "BlockEntry" | "block scalar");
                    out.ob("P20", !drops || now == Some(false), format!("kept:{}", want), || format!("a possible key survives a {}, so that a later value would take it", want));
                    out.ob("P20", now == Some(false) || usable, format!("expired:{}", want), || format!("a key on an earlier line or more than 1024 characters back stays possible (text starting with {})", class));
                } else {
                    out.ob("P20", fresh || flow_start && s.prove_eq0(cx, &kr.sub(&t0.r).addk(-1)), format!("saved-position:{}", want), || format!("the position saved for a possible key is not where the {} starts", want));
                    out.ob("P20", allowed || flow_start && { true }, format!("saved-illegal:{}", want), || format!("a {} is saved as a possible key where no key may start", want));
                    // required: the key sits at the current block level
                    let lvl = sh.num(cx, &s, &lay.indent);
                    let stt = sh.rd(cx, &s, &lay.started).ok().map(|v| cx.expand(&v)).and_then(|v| match v { Val::Bool(c) => Some(c), _ => None });
                    if let (Some(l), Some(c), false) = (lvl, stt, flow_start) {
                        let mut v = vec![(s.clone(), vec![])];
                        v = split(cx, v, &c);
                        v = split(cx, v, &Cond::Ge0(l.sub(&t0.c)));
                        v = split(cx, v, &Cond::Ge0(t0.c.sub(&l)));
                        for (s2, b) in v {
                            let w = block && b[0] && b[1] && b[2];
                            let got = match &kposs { Val::Var(k, _) => Some(required_set.has(*k as usize)), Val::Top(t, o) => { let d = s2.set_of(cx, cx.disc_id(*t, *o)); if d.subset(&required_set) { Some(true) } else if d.and(&required_set).is_empty() { Some(false) } else { None } } _ => None };
                            out.ob("P20", got == Some(w), format!("required:{}", want), || format!("a {} {} at the current block indentation is {} as a required key", want, if w { "" } else { "not" }, if w { "not saved" } else { "saved" }));
                        }
                    }
                }
            } else {
                // a key that may start here is remembered
                let may = allowed && matches!(want, "anchor" | "tag" | "flow scalar" | "plain scalar");
                out.ob("P20", !may, format!("unsaved:{}", want), || format!("a {} where a key may start is not remembered as a possible key", want));
                let lose = matches!(want, "anchor" | "tag" | "flow scalar" | "plain scalar") && usable;
                out.ob("P20", !lose, format!("dropped:{}", want), || format!("a {} makes the scanner forget a key that is still possible", want));
            }
            // ---- P24: token order
            for t in &toks {
                let here = s.prove(cx, &t.mark.sub(&t0.r));
                let at_key = usable && want == "Value" && matches!(&t.kind[..], "Key" | "BlockMappingStart") && kp.as_ref().map_or(false, |k| s.prove_eq0(cx, &t.mark.sub(&k.r)));
                out.ob("P24", here || at_key, format!("mark:{}", t.kind), || format!("a {} is queued in front of tokens that may already have been handed out", t.kind));
            }
            for w in toks.windows(2) { out.ob("P24", s.prove(cx, &w[1].mark.sub(&w[0].mark)), format!("order:{}:{}", w[0].kind, w[1].kind), || format!("a {} queued after a {} comes out before it", w[1].kind, w[0].kind)); }
            if let Some(e) = sh.pos(cx, &s) { for t in &toks { out.ob("P24", s.prove(cx, &e.r.sub(&t.mark)), format!("ahead:{}", t.kind), || format!("a {} is queued at a position the scanner has not reached", t.kind)); } }
            // ---- P13
            let bal = gk(&s, "bal");
            out.ob("P13", bal == 0, format!("balance:{}", want), || format!("scanning a {} {} than it announces", want, if bal > 0 { "closes more or opens fewer indentation levels" } else { "opens more or closes fewer indentation levels" }));
            let boundary = matches!(want, "StreamEnd" | "DocumentStart" | "DocumentEnd" | "directive");
            let over = gk(&s, "over");
            out.ob("P13", over == 0 || over == 1 && boundary, format!("early:{}", want), || if over == 3 { format!("a block collection is closed inside a flow collection, before a {}", want) } else { format!("a block collection is closed before a {} that is indented enough to belong to it", want) });
            out.ob("P13", gk(&s, "zleft") == 0 || boundary || flow || want == "Value" && usable, format!("left:{}", want), || format!("a block sequence at the column of the mapping around it stays open at a {} in that column", want));
            let now = sh.vec(cx, &s);
            if let Some((d, _)) = &now {
                for w in [true, false] { for s in s.assume(cx, &Cond::Ge0(d.addk(-1)), w) {
                    out.ob("P13", sh.started(cx, &s) == Some(w), format!("level:{}:{}", if w { "open" } else { "none" }, want), || format!("after a {} {} block collection is open, but the scanner {} a current indentation", want, if w { "a" } else { "no" }, if w { "has no" } else { "keeps" }));
                } }
            } else { out.undecided.insert("indents".into(), "the indentation stack could not be read".into()); }
            let last = toks.last().unwrap();
            if boundary { out.ob("P13", last.emptied || flow, format!("open:{}", want), || format!("a {} is queued while block collections are still open", want)); }
            let opened: Vec<&Tok> = toks.iter().filter(|t| t.kind.starts_with("Block") && t.kind.ends_with("Start")).collect();
            for (i, t) in opened.iter().enumerate() {
                let seq = t.kind == "BlockSequenceStart";
                out.ob("P13", (want == "BlockEntry") == seq && matches!(want, "BlockEntry" | "Key" | "Value"), format!("kind:{}:{}", t.kind, want), || format!("a {} opens a {}", want, t.kind));
                out.ob("P13", block, format!("flow:{}", t.kind), || format!("a {} inside a flow collection", t.kind));
                let col = if want == "Value" && usable { kp.as_ref().unwrap().c.clone() } else { t0.c.clone() };
                out.ob("P13", s.prove_eq0(cx, &t.lvl.sub(&col)), format!("level:{}", t.kind), || format!("a {} does not set the indentation to the column it starts at", t.kind));
                if let Some((old, none)) = levels.get(i) {
                    let old = int(cx, &s, old).unwrap_or(Lin::k(0));
                    let none = *none == Val::b(true);
                    let (gt, eq) = (none || s.prove(cx, &t.lvl.sub(&old).addk(-1)), s.prove_eq0(cx, &t.lvl.sub(&old)));
                    out.ob("P13", gt || seq && eq, format!("deeper:{}", t.kind), || format!("a {} is opened at a column that is not deeper than the collection around it", t.kind));
                    let z = now.as_ref().and_then(|n| n.1.clone()).and_then(|e| entry_part(cx, &e, "zero_indented")).and_then(|v| match cx.expand(&v) { Val::Bool(c) => s.known(cx, &c), _ => None });
                    if gt || eq { out.ob("P13", z == Some(!gt), format!("same-column:{}", t.kind), || format!("a {} {} the column of the collection around it is {}marked as sharing it", t.kind, if gt { "deeper than" } else { "at" }, if gt { "" } else { "not " })); }
                } else { out.ob("P13", false, format!("announced:{}", t.kind), || format!("a {} is announced without opening a level", t.kind)); }
            }
            // an entry or key belongs to a collection at its own column
            if block && matches!(want, "BlockEntry" | "Key" | "Value") {
                let key = want == "Value" && usable;
                let col = if key { kp.as_ref().unwrap().c.clone() } else { t0.c.clone() };
                let f = toks.iter().find(|t| !t.kind.starts_with("Block") || t.kind == "BlockEntry").unwrap();
                let inner = key && opened.is_empty();
                let ok = if inner { s.prove(cx, &f.lvl.sub(&col)) } else { s.prove_eq0(cx, &f.lvl.sub(&col)) };
                out.ob("P13", ok && sh.started(cx, &s) == Some(true), format!("member:{}", want), || format!("a {} is queued although no block collection is open at its column", want));
                if want == "BlockEntry" {
                    let kind = now.as_ref().and_then(|n| n.1.clone()).and_then(|e| entry_part(cx, &e, "kind"));
                    let map = match &kind { Some(Val::Top(t, o)) => Some(s.set_of(cx, cx.disc_id(*t, *o)).and(&variant_set(*t, &["BlockMappingStart"])).is_empty()), Some(Val::Var(k, _)) => ENTRY_TY.with(|t| t.borrow().and_then(|t| entry_at(cx, t, "kind").map(|i| (t, i))).map(|(t, i)| { vname(cx.fields(t, 0)[i], *k) == "BlockSequenceStart" })), _ => None };
                    out.ob("P13", map == Some(true), "member:kind", || "a BlockEntry is queued although the collection open at its column is a mapping".into());
                }
            }
            // a collection the token is not indented enough for is closed first
            if block && !boundary && !(want == "Value" && usable) {
                let f = &toks[0];
                out.ob("P13", f.emptied || f.none || s.prove(cx, &t0.c.sub(&f.lvl)), format!("late:{}", want), || format!("a block collection stays open at a {} indented less than it", want));
            }
        }
    }
}

/// Run the step over every class of text and judge every way it can end.
pub fn explore(p: &Program) -> Result<Judged, String> {
    let next = step(p).ok_or("the scanner's step function is not recognised")?;
    let mut jobs = vec![];
    for c in classes() { for k in 0..8 { jobs.push((c.clone(), k & 1 != 0, k & 2 != 0, k & 4 != 0)) } }
    if let Ok(w) = std::env::var("CLS") { jobs.retain(|c| c.0.name.contains(&w)) }
    let parts = crate::shard::run(jobs.len(), |i| {
        let (c, saved, lines, open) = &jobs[i];
        let mut out = Judged::default();
        match run(p, next, c, *saved, *lines, *open) {
            Ok(r) => if !*lines || r.sh.borrow().ws.is_some() { judge(&r, c, *lines, *saved, &mut out) },
            Err(e) => { out.undecided.insert("run".into(), format!("{} (text: {})", e, c.name)); }
        }
        out.lines()
    })?;
    let mut out = Judged::default();
    for p in parts { out.add(&p) }
    Ok(out)
}

pub fn experiment(p: &Program) {
    let next = step(p).expect("step");
    println!("step {}", p.names[&next]);
    let mut cl = classes();
    if let Ok(w) = std::env::var("CLS") { cl.retain(|c| c.name.contains(&w)) }
    for c in cl {
        let w = c.name.clone();
        for k in 0..8 {
            let (saved, lines, open) = (k & 1 != 0, k & 2 != 0, k & 4 != 0);
            let t = std::time::Instant::now();
            match run(p, next, &c, saved, lines, open) {
                Ok(r) => {
                    println!("== {} open={open} lines={lines} saved={} exits {} time {:?} steps {}", w, saved, r.rets.len(), t.elapsed(), r.cx.steps.get());
                    for ((p, k), m) in &r.sh.borrow().finds { println!("FIND {} {} {}", p, k, m) }
                    for (a, n) in r.cx.alarms.borrow().iter() { println!("ALARM x{} [{}] {} :: {} @{}", n, a.kind, a.func, a.what, a.loc) }
                    for (a, n) in r.cx.unsup.borrow().iter() { println!("UNSUP x{} {}", n, a) }
                    println!("subs {:?}", r.sh.borrow().entry_sub);
                    if std::env::var("V").is_ok() { for (s, v) in &r.rets {
                        let k: Vec<String> = s.trace.iter().map(|t| match (&t.0, &t.1) { (1, Val::Agg(a)) => format!("{}@{}", match &a[0] { Val::Int(l) if l.k >= 0 => KINDS[l.k as usize], _ => "?" }, show(&r.cx, &a[1])), (2, Val::Agg(a)) => format!("SUB{}", show(&r.cx, &a[0])), _ => "-".into() }).collect();
                        println!("  -> {} bal {} emptied {} {:?}", show(&r.cx, v), gk(s, "bal"), gk(s, "emptied"), k);
                    } }
                    let mut fs: Vec<_> = r.cx.fnstats.borrow().iter().map(|(k, v)| (v.1, k.clone(), v.0, v.2)).collect();
                    fs.sort(); fs.reverse();
                    for f in fs.iter().take(6) { println!("  {:>9} steps {:>6} calls  max {:>3} rets  {}", f.0, f.2, f.3, f.1) }
                }
                Err(e) => println!("== {} saved={} ERR {} {:?}", w, saved, e, t.elapsed()),
            }
        }
    }
}
pub fn experiment2(p: &Program) {
    match explore(p) {
        Ok(o) => {
            println!("runs {} exits {} cases {} steps {} {:?}", o.runs, o.exits, o.cases, o.steps, o.nob);
            for (k, n) in &o.seen { println!("  seen {} {}", k, n) }
            for ((p, k), m) in &o.finds { println!("FIND {} {} :: {}", p, k, m) }
            for (k, m) in &o.undecided { println!("UNDEC {} :: {}", k, m) }
        }
        Err(e) => println!("ERR {}", e),
    }
}

/// The entry point hands tokens out only when no key can still have to be put in front of them.
fn entry(p: &Program, next: Instance, out: &mut Judged) -> Result<(), String> {
    let scan = p.insts.iter().find(|i| p.names[i].ends_with("::Scanner::scan_tokens")).cloned().ok_or("the scanner's entry point is not found")?;
    struct Eh { next: Instance, lay: RefCell<Option<(Lay, CellId)>>, called: std::cell::Cell<u64>, offset: RefCell<Option<Vec<Pe>>>, resumes: std::cell::Cell<(u64, u64)> }
    /// The numbers the scanner holds itself.
    fn offsets(cx: &Cx, lay: &Lay) -> Vec<Vec<Pe>> { cx.fields(lay.scanner, 0).iter().enumerate().filter(|(_, t)| matches!(t.kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::Usize)))).map(|(i, _)| vec![Pe::F(i as u32)]).collect() }
    struct Er(Rc<Eh>);
    impl Hooks for Er {
        fn call(&self, cx: &Cx, st: &mut State, _name: &str, inst: Instance, args: &[Val], ret: Ty) -> Option<R<Vec<(State, Val)>>> {
            if inst != self.0.next { return None }
            self.0.called.set(self.0.called.get() + 1);
            let (lay, _) = self.0.lay.borrow().clone()?;
            let go = |st: &State| -> R<Vec<(State, Val)>> {
                let mut s = st.clone();
                let tys: Vec<Ty> = inst.body().unwrap().arg_locals().iter().map(|l| l.ty).collect();
                if let Val::Ptr(p) = cx.expand(&args[0]) {
                    let all = s.read(cx, p.root, &p.path)?;
                    let _ = all;
                    s.write(cx, p.root, &p.path, Val::Top(lay.scanner, cx.fresh("scanner")))?;
                }
                let mut over = vec![];
                for (t, a) in tys.iter().zip(args) {
                    if !is_ref(*t) { continue }
                    if let Val::Ptr(p) = cx.expand(a) {
                        if tname(deref_ty(*t)).ends_with("::Queue") { s.write(cx, p.root, &p.path, Val::Top(deref_ty(*t), cx.fresh("queue")))?; }
                        if is_str_ref(deref_ty(*t)) {
                            let v = s.read(cx, p.root, &p.path)?;
                            let w = as_view(cx, &mut s, &v)?;
                            // the text handed over starts where the step before stopped
                            let sh = Sh { lay: Some(lay.clone()), scanner: self.0.lay.borrow().clone().map(|l| l.1), ..Default::default() };
                            match st.ghost_get("at") {
                                Val::Int(a) => { let ok = s.prove_eq0(cx, &w.s.sub(&a)); self.0.resumes.set((self.0.resumes.get().0 + 1, self.0.resumes.get().1 + !ok as u64)); }
                                _ => if let Some(k) = offsets(cx, &lay).into_iter().find(|k| sh.num(cx, st, k).map_or(false, |o| s.prove_eq0(cx, &w.s.sub(&o)))) { *self.0.offset.borrow_mut() = Some(k) }
                            }
                            let n = Lin::sym(cx.fresh("reached"));
                            if !(s.assume_ge0(cx, &n.sub(&w.s)) && s.assume_ge0(cx, &w.e.sub(&n))) { return Err(Stop::Dead) }
                            s.add_bnd(w.buf, n.clone());
                            s.ghost_set("at", Val::Int(n.clone()));
                            s.write(cx, p.root, &p.path, Val::View(View { buf: w.buf, s: n, e: w.e.clone() }))?;
                        }
                    }
                }
                let et = ty_args(ret).get(1).cloned().unwrap_or(ret);
                for stop in [true, false] {
                    let mut e = s.clone();
                    e.ghost_set("failed", Val::k(1 + stop as i128));
                    let p = crate::ai::models::err_payload(cx, ret);
                    if let Val::Top(t, o) = &p {
                        let x = variant_set(et, &["Extend"]);
                        let id = cx.disc_id(*t, *o);
                        if !e.assume_in(cx, id, &if stop { x } else { Set::from_fn(|i| !x.has(i)) }) { continue }
                    }
                    over.push((e, Val::err(p)));
                }
                over.push((s, Val::ok(Val::unit())));
                Ok(over)
            };
            Some(go(st))
        }
        // states that differ in whether a key is pending, or in whether the scanner is done, are not merged
        fn skeleton(&self, cx: &Cx, st: &State) -> u64 {
            let Some((lay, c)) = self.0.lay.borrow().clone() else { return 0 };
            let sh = Sh { lay: Some(lay.clone()), scanner: Some(c), ..Default::default() };
            let kt = ty_args(lay.save_ty)[0];
            let Some(pi) = cx.fields(kt, 0).iter().position(|t| *t != lay.stats_ty) else { return 0 };
            let usable = variant_set(cx.fields(kt, 0)[pi], &["Yes", "Required"]);
            let done = variant_set(lay.state_ty, &["Done"]);
            let set = |v: &Val| match v { Val::Top(t, o) => Some(st.set_of(cx, cx.disc_id(*t, *o))), Val::Var(k, _) => Some(Set::one(*k as usize)), _ => None };
            let cls = |v: Option<Set>, w: &Set| match v { None => 0u64, Some(s) if s.subset(w) => 1, Some(s) if s.and(w).is_empty() => 2, _ => 3 };
            let d = cls(sh.rd(cx, st, &lay.state).ok().and_then(|v| set(&v)), &done);
            let k = match sh.rd(cx, st, &lay.save) {
                Ok(v) => match set(&v) {
                    Some(s) if s.subset(&Set::one(0)) => 4,
                    Some(s) if !s.has(0) => cls(set(&field(cx, &field(cx, &v, 1, 0), 0, pi)), &usable),
                    _ => 6 },
                _ => 7 };
            d * 8 + k
        }
    }
    let h = Rc::new(Eh { next, lay: RefCell::new(None), called: Default::default(), offset: Default::default(), resumes: Default::default() });
    let cx = Cx::new(Box::new(Er(h.clone())));
    cx.splitbools.set(true);
    cx.id_l(IdKey::Fresh(0), "zero".into());
    cx.budget.set(2_000_000);
    let b = scan.body().unwrap();
    let a: Vec<Ty> = b.arg_locals().iter().map(|l| l.ty).collect();
    let sty = deref_ty(a[0]);
    let lay = layout(&cx, sty).ok_or("the layout of the scanner's state is not recognised")?;
    let mut st = State::new();
    let all = Val::Top(sty, cx.fresh("scanner"));
    let s = cx.cell_new(CellInit::Val(all.clone()));
    st.write(&cx, Root::Cell(s), &[], all).map_err(|_| "the scanner cannot be set up".to_string())?;
    *h.lay.borrow_mut() = Some((lay.clone(), s));
    let ptr = |c: CellId| Val::Ptr(Ptr { root: Root::Cell(c), path: vec![] });
    let t = cx.fresh("text");
    let buf = cx.buf_sym(t, true);
    let len = Lin::sym(cx.len_id(t));
    st.add_bnd(buf, Lin::k(0));
    st.ghost_set("keep", Val::agg(vec![ptr(s)]));
    let args = a.iter().enumerate().map(|(i, t)| if i == 0 { ptr(s) } else if is_str_ref(*t) { Val::View(View { buf, s: Lin::k(0), e: len.clone() }) } else if is_ref(*t) { ptr(cx.cell_new(CellInit::Val(Val::Top(deref_ty(*t), cx.fresh("arg"))))) } else { Val::Top(*t, cx.fresh("arg")) }).collect();
    let rets = cx.run_fn(scan, args, st).map_err(|e| match e { Stop::Unsup(u) => u, Stop::Panic(u) => u, _ => "no result".into() })?;
    for (u, _) in cx.unsup.borrow().iter() { out.undecided.insert(format!("unsup:{}", u), format!("{} (entry point)", u)); }
    if h.called.get() == 0 { return Err("the entry point never takes a step".into()) }
    let sh = Sh { lay: Some(lay.clone()), scanner: Some(s), ..Default::default() };
    let kt = ty_args(lay.save_ty)[0];
    let kt_fields = cx.fields(kt, 0);
    let pi = kt_fields.iter().position(|t| *t != lay.stats_ty).ok_or("the saved key")?;
    let usable = variant_set(kt_fields[pi], &["Yes", "Required"]);
    let done = variant_set(lay.state_ty, &["Done"]);
    if usable.is_empty() || done.is_empty() { return Err("the states of the scanner are not recognised".into()) }
    let mut oks = 0;
    let Some(offset) = h.offset.borrow().clone() else { return Err("where the scanner continues in the text is not found".into()) };
    out.ob("P16", h.resumes.get().1 == 0, "resume:step", || "a step does not start in the text where the one before it stopped".into());
    for (st, v) in &rets {
        let failed = gk(st, "failed");
        if let (Val::Int(at), true) = (st.ghost_get("at"), failed != 1) {
            let ok = sh.num(&cx, st, &offset).map_or(false, |o| st.prove_eq0(&cx, &o.sub(&at)));
            out.ob("P16", ok, format!("resume:{}", if failed == 2 { "stopping" } else { "returning" }), || format!("when the scanner {}, it does not continue in the text where the last step stopped", if failed == 2 { "stops for more input" } else { "returns" }));
        }
        if var_of(&cx, st, v).ok() != Some(0) { continue }
        oks += 1;
        // every way this exit's state can be
        let mut alts = vec![st.clone()];
        let mut bad = false;
        while let Some(s) = alts.pop() {
            let fork = |r: R<bool>, alts: &mut Vec<State>| -> bool { match r { Ok(b) => b, Err(Stop::Fork(v)) => { alts.extend(v); false } Err(_) => false } };
            let r = (|| -> R<bool> {
                let d = sh.rd(&cx, &s, &lay.state)?;
                let fin = match &d { Val::Top(t, o) => s.set_of(&cx, cx.disc_id(*t, *o)).subset(&done), Val::Var(k, _) => done.has(*k as usize), _ => false };
                if fin { return Ok(false) }
                let k = sh.rd(&cx, &s, &lay.save)?;
                if var_of(&cx, &s, &k)? == 0 { return Ok(false) }
                Ok(match field(&cx, &field(&cx, &k, 1, 0), 0, pi) { Val::Top(t, o) => !s.set_of(&cx, cx.disc_id(t, o)).and(&usable).is_empty(), Val::Var(k, _) => usable.has(k as usize), _ => true })
            })();
            let b = fork(r, &mut alts);
            bad |= b;
        }
        out.ob("P24", !bad, "handed-out", || "the scanner hands out tokens while a key may still have to be put in front of them".into());
        out.ob("P24", gk(st, "failed") == 0, "failed", || "the scanner reports success although a step failed".into());
    }
    if oks == 0 { return Err("the entry point never succeeds".into()) }
    out.analysed.insert(p.names[&scan].clone());
    Ok(())
}

pub fn check(p: &Program, prop: &'static str) -> Report {
    let rule = match prop {
        "P13" => "abstract interpretation of one scanner step (scan_next_token) from an unknown scanner state over every class of text a token can start with; a typestate of the indentation stack (levels pushed and popped against BlockSequenceStart, BlockMappingStart and BlockEnd queued) judged at every pop, push, queued token and exit",
        "P19" => "abstract interpretation of one scanner step over every class of text a token can start with, in the block and the flow context, at column 0 and elsewhere; the token queued (or the scalar or tag scanner entered, with its mode) is the one the indicator table dictates",
        "P20" => "abstract interpretation of one scanner step with a symbolic saved key (state, position); a key is saved, kept, expired, required, consumed or dropped at every exit exactly as the implicit key rule dictates",
        "P23" => "abstract interpretation of one scanner step with an unknown simple-key permission; entries, keys and values are accepted exactly where they may start and the permission after every token is the one the token dictates",
        _ => "abstract interpretation of one scanner step with symbolic positions: every token is queued at or after every token already handed out (or at the pending key that keeps them back), in order; no step that asks for more input queues a token; the entry point returns only when no key is pending",
    };
    let mut r = Report::new(prop, rule);
    match explore(p) {
        Err(e) => r.undecided("explore", e),
        Ok(mut o) => {
            if prop == "P24" || prop == "P16" || prop == "SCAN" { if let Some(n) = step(p) { if let Err(e) = entry(p, n, &mut o) { r.undecided("entry", e) } } }
            let mut bad = 0;
            for ((q, k), m) in &o.finds { if *q == prop { bad += 1; r.find(k.clone(), m.clone()) } else if prop == "SCAN" { r.find(format!("{}:{}", q, k), m.clone()) } }
            let n = o.nob.get(prop).copied().unwrap_or(0);
            r.obligations += n;
            r.discharged += n.saturating_sub(bad);
            for (k, m) in &o.undecided { r.undecided(k.clone(), m.clone()) }
            r.num("texts and states the step was run from", o.runs);
            r.num("ways the step can end", o.exits);
            r.num("cases judged", o.cases);
            r.num("statements interpreted", o.steps);
            for (k, n) in &o.seen { r.list("outcomes", format!("{}: {}", k, n)) }
            for s in &o.subs { r.list("summarised (may fail, or consume any part of the text and yield their token)", s.clone()) }
            r.analysed = o.analysed.iter().cloned().collect();
            floor(&mut r, "runs", o.runs as usize, 200);
            floor(&mut r, "ways the step can end", o.exits as usize, 1000);
            floor(&mut r, "kinds of outcome", o.seen.keys().filter(|k| k.ends_with("(accepted)")).count(), 14);
            floor(&mut r, "summarised scanners", o.subs.len(), 5);
        }
    }
    r
}
