//! What a check reports: obligations, findings (violations) and coverage.
use std::collections::BTreeMap;

#[derive(Default)]
pub struct Report {
    pub prop: String,
    pub obligations: u64,
    pub discharged: u64,
    /// (stable key, message with location)
    pub findings: BTreeMap<String, String>,
    /// reasons why the analysis could not decide (these fail the run as an error)
    pub undecided: BTreeMap<String, String>,
    pub analysed: Vec<String>,
    pub lists: BTreeMap<String, Vec<String>>,
    pub numbers: BTreeMap<String, u64>,
    pub rule: String,
}
pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"');
    o
}
fn arr(v: &[String]) -> String { format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")) }
fn map(m: &BTreeMap<String, String>) -> String { format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", esc(k), esc(v))).collect::<Vec<_>>().join(",")) }

impl Report {
    pub fn new(prop: &str, rule: &str) -> Report { Report { prop: prop.into(), rule: rule.into(), ..Default::default() } }
    /// One obligation; `ok` or a finding.
    pub fn ob(&mut self, ok: bool, key: impl FnOnce() -> String, msg: impl FnOnce() -> String) -> bool {
        self.obligations += 1;
        if ok { self.discharged += 1 } else { let k = key(); let m = msg(); self.findings.entry(k).or_insert(m); }
        ok
    }
    pub fn find(&mut self, key: impl Into<String>, msg: impl Into<String>) { self.obligations += 1; self.findings.entry(key.into()).or_insert(msg.into()); }
    pub fn good(&mut self) { self.obligations += 1; self.discharged += 1 }
    pub fn undecided(&mut self, key: impl Into<String>, msg: impl Into<String>) { self.undecided.entry(key.into()).or_insert(msg.into()); }
    pub fn list(&mut self, k: &str, v: impl Into<String>) { self.lists.entry(k.into()).or_default().push(v.into()) }
    pub fn num(&mut self, k: &str, v: u64) { *self.numbers.entry(k.into()).or_default() += v }
    pub fn json(&self) -> String {
        format!("{{\"prop\":{},\"rule\":{},\"obligations\":{},\"discharged\":{},\"findings\":{},\"undecided\":{},\"analysed\":{},\"lists\":{{{}}},\"numbers\":{{{}}}}}\n",
            esc(&self.prop), esc(&self.rule), self.obligations, self.discharged, map(&self.findings), map(&self.undecided), arr(&self.analysed),
            self.lists.iter().map(|(k, v)| format!("{}:{}", esc(k), arr(v))).collect::<Vec<_>>().join(","),
            self.numbers.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","))
    }
    pub fn write(&self) {
        match std::env::var("YARY_OUT") { Ok(p) => std::fs::write(p, self.json()).unwrap(), Err(_) => print!("{}", self.json()) }
    }
}
