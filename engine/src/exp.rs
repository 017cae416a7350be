use crate::ai::*;
use crate::program::Program;
use rustc_public::mir::*;

pub fn run(what: &str) {
    let p = Program::build();
    eprintln!("{} instances", p.insts.len());
    if what == "scanner2" { crate::checks::scanner::experiment2(&p); return }
    if what == "scanner" { crate::checks::scanner::experiment(&p); return }
    if what == "list" { let mut v: Vec<_> = p.insts.iter().map(|i| p.names[i].clone()).collect(); v.sort(); for n in v { println!("{}", n) } return }
    for i in p.find(what) {
        let cx = Cx::new(Box::new(NoHooks));
        cx.id_l(IdKey::Fresh(0), "zero".into());
        println!("== {}", i.name());
        let b = cx.body(i).unwrap();
        let args: Vec<Val> = b.body.arg_locals().iter().enumerate().map(|(k, l)| Val::Top(l.ty, cx.fresh(&format!("arg{}", k)))).collect();
        let t = std::time::Instant::now();
        if let Ok(l) = std::env::var("LIM") { cx.lim.set(l.parse().unwrap()) }
        cx.budget.set(std::env::var("BUDGET").ok().and_then(|b| b.parse().ok()).unwrap_or(30_000_000));
        match cx.run_fn(i, args, State::new()) {
            Ok(v) => for (s, v) in &v { println!("-> {}", show(&cx, v)); if std::env::var("V").is_ok() { println!("{}", dump(&cx, s)) } },
            Err(e) => println!("ERR {:?}", match e { Stop::Unsup(u) => u, Stop::Fork(_) => "fork".into(), Stop::Dead => "dead".into(), Stop::Panic(p) => p }),
        }
        println!("time {:?} steps {} joins {} ids {}", t.elapsed(), cx.steps.get(), cx.joins.get(), cx.ids.borrow().len());
        for (a, n) in cx.alarms.borrow().iter() { println!("ALARM x{} [{}] {} :: {} @{} via {}", n, a.kind, a.func, a.what, a.loc, a.chain.split(" > ").map(|s| s.rsplit("::").next().unwrap_or(s)).collect::<Vec<_>>().join(">")) }
        for (a, n) in cx.unsup.borrow().iter() { println!("UNSUP x{} {}", n, a) }
        println!("obligations {} sites {} functions {}", cx.oblig.get(), cx.sites.borrow().len(), cx.analysed.borrow().len());
        let mut fs: Vec<_> = cx.fnstats.borrow().iter().map(|(k, v)| (v.1, k.clone(), v.0, v.2)).collect();
        fs.sort(); fs.reverse();
        for f in fs.iter().take(15) { println!("  {:>9} steps {:>6} calls  max {:>3} rets  {}", f.0, f.2, f.3, f.1) }
    }
}
