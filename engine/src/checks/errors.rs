//! P11: every conversion between error types keeps the failure it was given,
//! and every failure has the category it is documented with.
use super::floor;
use crate::ai::*;
use crate::program::Program;
use crate::report::Report;
use rustc_public::mir::mono::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::collections::BTreeSet;

fn io_new(name: &str, f: &str) -> bool { !name.contains("yary::") && name.ends_with(&format!("::{}", f)) && (name.contains("std::io::Error>") || name.contains("std::io::Error::") || name.contains("io::error::Error::")) }
struct H;
impl Hooks for H {
    fn call(&self, cx: &Cx, st: &mut State, name: &str, _inst: Instance, args: &[Val], _ret: Ty) -> Option<R<Vec<(State, Val)>>> {
        if io_new(name, "new") {
            return Some(Ok(vec![(st.clone(), Val::obj(Obj::Other { tag: "io::Error::new", ty: _ret, vals: vec![args[0].clone()] }))]));
        }
        if io_new(name, "other") {
            return Some(Ok(vec![(st.clone(), Val::obj(Obj::Other { tag: "io::Error::other", ty: _ret, vals: vec![] }))]));
        }
        let _ = cx;
        None
    }
}

fn adt(t: Ty) -> Option<(AdtDef, GenericArgs)> { match t.kind() { TyKind::RigidTy(RigidTy::Adt(d, a)) => Some((d, a)), _ => None } }
fn tname(t: Ty) -> String { match adt(t) { Some((d, _)) => { let n = d.name().to_string(); n.rsplit("::").next().unwrap_or("").to_string() } None => String::new() } }
fn pointee(t: Ty) -> Option<Ty> {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Ref(_, t, _)) => Some(t),
        TyKind::RigidTy(RigidTy::Adt(d, a)) if d.is_box() => match a.0.first() { Some(GenericArgKind::Type(t)) => Some(*t), _ => None },
        _ => None,
    }
}
fn is_lib(t: Ty) -> bool { adt(t).map_or(false, |(d, _)| { let n = d.name().to_string(); n.starts_with("yary::") || d.krate().name == "yary" }) }
fn is_io(t: Ty) -> bool { adt(t).map_or(false, |(d, _)| { let n = d.name().to_string(); n == "std::io::Error" || n == "std::io::error::Error" }) }
fn is_utf8(t: Ty) -> bool { tname(t) == "Utf8Error" }
fn is_category(t: Ty) -> bool { is_lib(t) && tname(t) == "Category" }
/// An error type: one of std's two, or a library type that implements Error, or is made only of such.
pub fn is_failure(t: Ty) -> bool {
    let t = pointee(t).unwrap_or(t);
    if is_io(t) || is_utf8(t) { return true }
    if !is_lib(t) { return false }
    let n = tname(t);
    n.contains("Error") && !is_category(t)
}

/// The types to look inside of when naming a failure.
fn carries(cx: &Cx, t: Ty) -> bool { is_failure(t) || pointee(t).map_or(false, |t| carries(cx, t)) }

/// All failures a type can hold, with a name that is the same whichever type holds it.
fn gen(cx: &Cx, t: Ty, st: &mut State) -> Vec<(Val, String)> {
    if is_io(t) { let i = cx.fresh("io"); return vec![(Val::Top(t, i), "io::Error".into())] }
    if is_utf8(t) { let i = cx.fresh("utf8"); return vec![(Val::Top(t, i), "Utf8Error".into())] }
    if let Some(p) = pointee(t) {
        return gen(cx, p, st).into_iter().map(|(v, n)| { let c = cx.cell_new(CellInit::Val(v)); (Val::Ptr(Ptr { root: Root::Cell(c), path: vec![] }), n) }).collect();
    }
    let Some((d, _)) = adt(t) else { return vec![] };
    let mut out = vec![];
    match d.kind() {
        AdtKind::Enum => for (k, v) in d.variants().iter().enumerate() {
            let fs = cx.fields(t, k as u32);
            let inner: Vec<usize> = (0..fs.len()).filter(|i| carries(cx, fs[*i])).collect();
            if inner.len() == 1 {
                for (x, n) in gen(cx, fs[inner[0]], st) {
                    let mut vs: Vec<Val> = fs.iter().map(|t| Val::Top(*t, cx.fresh("x"))).collect();
                    vs[inner[0]] = x;
                    out.push((Val::var(k as u32, vs), n));
                }
            } else { out.push((Val::var(k as u32, fs.iter().map(|t| Val::Top(*t, cx.fresh("x"))).collect()), v.name().to_string())) }
        },
        _ => {
            let fs = cx.fields(t, 0);
            let inner: Vec<usize> = (0..fs.len()).filter(|i| carries(cx, fs[*i])).collect();
            if inner.len() != 1 { return vec![] }
            for (x, n) in gen(cx, fs[inner[0]], st) {
                let mut vs: Vec<Val> = fs.iter().map(|t| Val::Top(*t, cx.fresh("x"))).collect();
                vs[inner[0]] = x;
                out.push((Val::agg(vs), n));
            }
        }
    }
    out
}

/// The failure(s) a value may hold in a state, and the identity of the source it carries.
fn name_of(cx: &Cx, st: &State, v: &Val, t: Ty, out: &mut Vec<(String, Option<Id>)>) {
    if is_io(t) || is_utf8(t) {
        match v {
            Val::Top(_, i) => out.push((if is_io(t) { "io::Error".into() } else { "Utf8Error".into() }, Some(*i))),
            Val::Obj(o) => match &**o {
                Obj::Other { tag: "io::Error::new", vals, .. } => {
                    let k = match &vals[0] {
                        Val::Var(k, _) => format!("#{}", k),
                        Val::Top(..) => "#?".into(),
                        x => format!("{:?}", x),
                    };
                    out.push((format!("new{}", k), None));
                }
                o => out.push((format!("{:?}", o), None)),
            },
            v => out.push((format!("unknown {:?}", v), None)),
        }
        return;
    }
    if let Some(p) = pointee(t) {
        match cx.expand(v) {
            Val::Ptr(q) => match st.read(cx, q.root, &q.path) { Ok(x) => name_of(cx, st, &x, p, out), Err(_) => out.push(("unreadable".into(), None)) },
            o => out.push((format!("unknown {:?}", o), None)),
        }
        return;
    }
    let Some((d, _)) = adt(t) else { out.push(("unknown".into(), None)); return };
    match d.kind() {
        AdtKind::Enum => {
            let vars: Vec<(u32, Vec<Val>)> = match v {
                Val::Var(k, f) => vec![(*k, f.to_vec())],
                Val::Top(ty, o) => st.set_of(cx, cx.disc_id(*ty, *o)).iter().filter_map(|k| match cx.expand_var(*ty, *o, k as u32) { Val::Var(k, f) => Some((k, f.to_vec())), _ => None }).collect(),
                _ => { out.push(("unknown".into(), None)); return }
            };
            for (k, f) in vars {
                let fs = cx.fields(t, k);
                let inner: Vec<usize> = (0..fs.len()).filter(|i| carries(cx, fs[*i])).collect();
                if inner.len() == 1 { name_of(cx, st, &f[inner[0]], fs[inner[0]], out) } else { out.push((d.variants()[k as usize].name().to_string(), None)) }
            }
        }
        _ => {
            let fs = cx.fields(t, 0);
            let inner: Vec<usize> = (0..fs.len()).filter(|i| carries(cx, fs[*i])).collect();
            match cx.expand(v) {
                Val::Agg(a) if inner.len() == 1 => name_of(cx, st, &a[inner[0]], fs[inner[0]], out),
                Val::Ptr(_) | Val::View(_) => out.push(("unknown".into(), None)),
                _ => out.push(("unknown".into(), None)),
            }
        }
    }
}

/// Category documented for a failure.
fn category(n: &str) -> Option<&'static str> {
    Some(match n {
        "io::Error" => "IO",
        "Utf8Error" | "IntOverflow" | "CorruptStream" => "Data",
        "UnexpectedEOF" | "Extend" => "EOF",
        "UnknownDirective" | "MissingMajor" | "MissingMinor" | "MissingValue" | "InvalidVersion" | "InvalidTagHandle" | "InvalidTagPrefix" | "InvalidTagSuffix" | "InvalidAnchorName"
        | "InvalidFlowScalar" | "InvalidPlainScalar" | "InvalidBlockScalar" | "InvalidBlockEntry" | "InvalidTab" | "InvalidKey" | "InvalidValue" | "UnknownEscape" | "UnknownDelimiter"
        | "DuplicateVersion" | "DuplicateTagDirective" | "UndefinedTag" | "MissingDocumentStart" | "MissingBlockEntry" | "MissingNode" | "MissingKey"
        | "MissingFlowSequenceEntryOrEnd" | "MissingFlowMappingEntryOrEnd" => "Syntax",
        _ => return None,
    })
}
fn io_kind(cat: &str) -> &'static str { match cat { "Syntax" => "InvalidInput", "Data" => "InvalidData", "EOF" => "UnexpectedEof", _ => "" } }
/// A request for more input that nobody could serve is the end of the input.
fn kept(n: &str, to: &str) -> bool { n == to || (n == "Extend" && to == "UnexpectedEOF") }

pub fn check(p: &Program) -> Report {
    let mut r = Report::new("P11", "abstract interpretation of every reachable conversion (From::from with failure types on both sides, and the classification of the public error) on every failure each source type can hold: the result holds the same failure with the same source, and its category is the documented one");
    let mut convs: Vec<(Instance, Ty, Ty, String)> = vec![];
    let mut seen: BTreeSet<String> = BTreeSet::new();
    for i in &p.insts {
        let n = &p.names[i];
        if !n.contains("yary::") { continue }
        let isfrom = n.ends_with("::from") && n.contains("std::convert::From<");
        let iscls = n.ends_with("Error::classify");
        if !isfrom && !iscls { continue }
        let Some(b) = i.body() else { continue };
        let args = b.arg_locals();
        if args.len() != 1 { continue }
        let (at, rt) = (args[0].ty, b.ret_local().ty);
        if !is_failure(at) || !(is_failure(rt) || is_category(rt)) { continue }
        // conversions written in the library, not the reflexive impl
        if at == rt || !seen.insert(n.clone()) { continue }
        convs.push((*i, at, rt, n.clone()));
    }
    convs.sort_by(|a, b| a.3.cmp(&b.3));
    let kinds = |t: Ty, k: usize| -> String { adt(t).and_then(|(d, _)| d.variants().get(k).map(|v| v.name().to_string())).unwrap_or_default() };
    let mut total = 0;
    let mut unknown: BTreeSet<String> = BTreeSet::new();
    let mut names: BTreeSet<String> = BTreeSet::new();
    for (inst, at, rt, n) in &convs {
        r.analysed.push(n.clone());
        let cx0 = Cx::new(Box::new(H));
        cx0.id_l(IdKey::Fresh(0), "zero".into());
        let cases = gen(&cx0, *at, &mut State::new()).len();
        if cases == 0 { r.undecided(format!("cases:{}", n), format!("the failures {} can hold were not recognised", n)); continue }
        for k in 0..cases {
            let cx = Cx::new(Box::new(H));
            cx.id_l(IdKey::Fresh(0), "zero".into());
            cx.budget.set(3_000_000);
            let mut st = State::new();
            let (v, from) = gen(&cx, *at, &mut st).swap_remove(k);
            names.insert(from.clone());
            let mut src = vec![];
            name_of(&cx, &st, &v, *at, &mut src);
            let srcid = src.first().and_then(|x| x.1);
            total += 1;
            let res = match cx.run_fn(*inst, vec![v], st) {
                Ok(v) => v,
                Err(_) => { r.undecided(format!("run:{}", n), format!("{} could not be analysed", n)); continue }
            };
            for (a, _) in cx.alarms.borrow().iter() { r.find(format!("panic:{}:{}", n, from), format!("{} panics on {}: {} in {} ({})", n, from, a.what, a.func, a.loc)) }
            for (u, _) in cx.unsup.borrow().iter() { r.undecided(format!("unsup:{}", u), format!("{} in {}", u, n)) }
            if res.is_empty() { r.find(format!("noreturn:{}:{}", n, from), format!("{} does not return for {}", n, from)); }
            for (s, v) in &res {
                if is_category(*rt) {
                    let Some(want) = category(&from) else { unknown.insert(from.clone()); continue };
                    let got: Vec<String> = match v { Val::Var(k, _) => vec![kinds(*rt, *k as usize)], Val::Top(t, o) => s.set_of(&cx, cx.disc_id(*t, *o)).iter().map(|k| kinds(*rt, k)).collect(), _ => vec!["?".into()] };
                    r.ob(got.len() == 1 && got[0] == want, || format!("category:{}:{}", n, from), || format!("{} classifies {} as {} instead of {}", n, from, got.join("/"), want));
                    continue;
                }
                let mut out = vec![];
                name_of(&cx, s, v, *rt, &mut out);
                if is_io(*rt) {
                    for (to, id) in out {
                        if from == "io::Error" { r.ob(to == "io::Error" && id == srcid, || format!("io:{}:{}", n, from), || format!("{} does not hand back the I/O error it was given", n)); continue }
                        let Some(cat) = category(&from) else { unknown.insert(from.clone()); continue };
                        let want = io_kind(cat);
                        let got = match to.strip_prefix("new#").and_then(|k| k.parse::<usize>().ok()) {
                            Some(k) => { match cx_iokind(p, k) { Some(n) => n, None => to.clone() } }
                            None => to.clone(),
                        };
                        r.ob(got == want, || format!("iokind:{}:{}", n, from), || format!("{} turns {} into io::ErrorKind::{} instead of {}", n, from, got, want));
                    }
                    continue;
                }
                r.ob(!out.is_empty() && out.iter().all(|(to, id)| kept(&from, to) && (srcid.is_none() || *id == srcid)), || format!("cause:{}:{}", n, from),
                    || format!("{} turns {} into {}", n, from, out.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join("/")));
            }
        }
    }
    for u in unknown { r.list("failures without a documented category (not judged)", u) }
    r.num("conversions", convs.len() as u64);
    r.num("(conversion, failure) pairs", total);
    r.num("distinct failures", names.len() as u64);
    floor(&mut r, "error conversions", convs.len(), 12);
    floor(&mut r, "distinct failures", names.len(), 30);
    let pubio = convs.iter().filter(|c| is_io(c.2)).count();
    floor(&mut r, "conversions to std::io::Error", pubio, 1);
    let cls = convs.iter().filter(|c| is_category(c.2)).count();
    floor(&mut r, "classifications", cls, 1);
    r
}

/// Name of the variant of io::ErrorKind with this index.
fn cx_iokind(p: &Program, k: usize) -> Option<String> {
    for i in &p.insts {
        if io_new(&p.names[i], "new") {
            let b = i.body()?;
            let (d, _) = adt(b.arg_locals()[0].ty)?;
            return d.variants().get(k).map(|v| v.name().to_string());
        }
    }
    None
}
/// The value of a constant boolean.
pub fn const_bool(c: &rustc_public::mir::ConstOperand) -> Option<bool> {
    if !matches!(c.const_.ty().kind(), TyKind::RigidTy(RigidTy::Bool)) { return None }
    match c.const_.kind() { rustc_public::ty::ConstantKind::Allocated(a) => a.read_bool().ok(), _ => None }
}
