//! One module per group of properties.
use crate::program::Program;
use crate::report::Report;
pub mod api;
pub mod buffers;
pub mod errors;
pub mod escapes;
pub mod grammar;
pub mod order;
pub mod parser;
pub mod recursion;
pub mod scanner;
pub mod swallow;

pub fn run(id: &str, thorough: bool) -> Option<Report> {
    let _ = thorough;
    if id == "P10" { return Some(api::check()) }
    let p = Program::build();
    Some(match id {
        "P01" | "P02" | "P03" | "P04" | "P05" | "P17" => parser::check(&p, ["P01", "P02", "P03", "P04", "P05", "P17"].into_iter().find(|x| *x == id).unwrap(), thorough),
        "P13" | "P16" | "P19" | "P20" | "P23" | "P24" => scanner::check(&p, ["P13", "P16", "P19", "P20", "P23", "P24"].into_iter().find(|x| *x == id).unwrap()),
        // all of the above at once, for working on them
        "SCAN" => scanner::check(&p, "SCAN"),
        "P09" => buffers::check(&p),
        "P11" => errors::check(&p),
        "P12" => swallow::check(&p),
        "P14" => order::check(&p),
        "P18" => escapes::check(&p),
        "P15" => recursion::check(&p),
        _ => return None,
    })
}

/// The anchors a check relies on: a missing one is itself a violation.
pub fn floor(r: &mut Report, what: &str, have: usize, min: usize) {
    r.ob(have >= min, || format!("coverage:{}", what), || format!("only {} {} found, at least {} expected: the analysis no longer sees the code it is about", have, what, min));
}
