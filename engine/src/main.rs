#![allow(unused_imports)]
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_infer;
extern crate rustc_trait_selection;
extern crate rustc_interface;
extern crate rustc_span;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use std::ops::ControlFlow;
mod ai;
mod checks;
mod exp;
mod program;
mod report;
mod shard;

fn main() {
    // invoked as RUSTC_WRAPPER: argv = [self, rustc, args...]
    let args: Vec<String> = std::env::args().collect();
    let rest: Vec<String> = args[1..].to_vec();
    let target = std::env::var("CARGO_PKG_NAME").ok().as_deref() == Some("yary-roots")
        && rest.iter().any(|a| a == "--crate-name");
    if !target {
        let st = std::process::Command::new(&rest[0]).args(&rest[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(101));
    }
    let r = run!(&rest, analyse);
    if let Err(e) = r {
        match e { rustc_public::CompilerError::Interrupted(c) => std::process::exit(c), e => { eprintln!("driver: {e:?}"); std::process::exit(101) } }
    }
}

fn analyse() -> ControlFlow<i32, ()> {
    let what = std::env::var("YARY_CHECK").unwrap_or_default();
    if let Some(w) = what.strip_prefix("run:") { exp::run(w); return ControlFlow::Continue(()) }
    if let Some(r) = checks::run(&what, std::env::var("YARY_TIER").as_deref() == Ok("thorough")) { r.write() }
    ControlFlow::Continue(())
}
