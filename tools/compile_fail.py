"""P10: compile-fail witnesses.  Every witness is a program the borrow, sealing
and thread rules forbid, next to a twin that differs only in obeying the rule.
rustc's own static semantics decide: the twin must compile against /repo's
current tree and the witness must be rejected with one of the errors that
stand for the rule (not for, say, a typo)."""
import json, os, re, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")

PRE = """#![allow(warnings)]
use yary::event::{from_reader, from_reader_with, flag, types::*, Events, EventIter, EventIterRef};
use yary::reader::{from_utf8, from_read, try_from_bytes, borrow::BorrowReader, owned::OwnedReader, Read, ReadContext};
"""
READERS = {
    "borrow": "from_utf8(DATA)",
    "bytes": "try_from_bytes(DATA.as_bytes()).unwrap()",
    "owned": "from_read(std::io::Cursor::new(DATA.as_bytes().to_vec()))",
}
BORROW = ["E0505", "E0597", "E0716", "E0515", "E0499", "E0502", "E0506", "E0503", "E0521", "lifetime"]
MOVE = ["E0382", "E0505"]
SEAL = ["E0277", "E0603", "E0053", "E0046", "E0412", "E0425", "E0432", "E0433"]
W = []
def w(name, rule, codes, bad, good): W.append((name, rule, codes, PRE + bad, PRE + good))

for k, mk in READERS.items():
    mk = mk.replace("DATA", '"a: [b, c]"')
    # --- nothing borrowed from a reader outlives it
    w("event-outlives-%s" % k, "an event outlives the %s reader it came from" % k, BORROW,
      "pub fn f() { let r = %s; let e = from_reader(&r).into_iter().next().unwrap().unwrap(); drop(r); let _x = &e; }" % mk,
      "pub fn f() { let r = %s; let e = from_reader(&r).into_iter().next().unwrap().unwrap(); let _x = &e; drop(e); drop(r); }" % mk)
    w("return-event-%s" % k, "a function returns an event of its local %s reader" % k, BORROW,
      "pub fn f<'x>() -> Option<Event<'x>> { let r = %s; let e = from_reader(&r).into_iter().next(); e.and_then(|e| e.ok()) }" % mk,
      "pub fn f<'x>() -> Option<()> { let r = %s; let e = from_reader(&r).into_iter().next(); e.and_then(|e| e.ok()).map(|_| ()) }" % mk)
    w("events-outlive-%s" % k, "an event stream outlives its %s reader" % k, BORROW,
      "pub fn f() { let r = %s; let ev = from_reader(&r); drop(r); for _e in ev {} }" % mk,
      "pub fn f() { let r = %s; let ev = from_reader(&r); for _e in ev {} drop(r); }" % mk)
    w("collect-outlives-%s" % k, "collected events outlive the %s reader" % k, BORROW,
      "pub fn f() { let mut v = Vec::new(); { let r = %s; for e in from_reader(&r) { v.push(e) } } println!(\"{}\", v.len()); }" % mk,
      "pub fn f() { let r = %s; let mut v = Vec::new(); for e in from_reader(&r) { v.push(e) } println!(\"{}\", v.len()); }" % mk)
    w("overwrite-%s" % k, "a %s reader is replaced while an event of it is in use" % k, BORROW,
      "pub fn f() { let mut r = %s; let e = from_reader(&r).into_iter().next(); r = %s; let _x = &e; }" % (mk, mk),
      "pub fn f() { let mut r = %s; let e = from_reader(&r).into_iter().next(); let _x = &e; r = %s; }" % (mk, mk))
    w("scalar-outlives-%s" % k, "scalar data outlives the %s reader" % k, BORROW,
      "pub fn f() { let mut s = None; { let r = %s; for e in from_reader(&r) { if let EventData::Scalar(n) = e.unwrap().data() { s = Some(n.content.clone()); } } } if let Some(s) = s { let _ = s.evaluate(); } }" % mk,
      "pub fn f() { let mut s = None; let r = %s; for e in from_reader(&r) { if let EventData::Scalar(n) = e.unwrap().data() { s = Some(n.content.clone()); } } if let Some(s) = s { let _ = s.evaluate(); } }" % mk)
    # --- one event stream at a time over a parser
    w("two-iters-%s" % k, "two iterators over one event stream (%s)" % k, BORROW,
      "pub fn f() { let r = %s; let mut ev = from_reader(&r); let mut a = ev.iter(); let mut b = ev.iter(); a.next(); b.next(); }" % mk,
      "pub fn f() { let r = %s; let mut ev = from_reader(&r); { let mut a = ev.iter(); a.next(); } let mut b = ev.iter(); b.next(); }" % mk)
    w("iter-and-consume-%s" % k, "an iterator in use while its event stream is consumed (%s)" % k, BORROW,
      "pub fn f() { let r = %s; let mut ev = from_reader(&r); let mut a = ev.iter(); for _e in ev {} a.next(); }" % mk,
      "pub fn f() { let r = %s; let mut ev = from_reader(&r); let mut a = ev.iter(); a.next(); for _e in ev {} }" % mk)
    w("consume-twice-%s" % k, "an event stream consumed twice (%s)" % k, MOVE,
      "pub fn f() { let r = %s; let ev = from_reader(&r); for _e in ev {} for _e in ev {} }" % mk,
      "pub fn f() { let r = %s; let ev = from_reader(&r); for _e in ev {} let ev = from_reader(&r); for _e in ev {} }" % mk)
    w("iter-outlives-%s" % k, "an iterator outlives its event stream (%s)" % k, BORROW,
      "pub fn f() { let r = %s; let mut ev = from_reader(&r); let mut a = ev.iter(); drop(ev); a.next(); }" % mk,
      "pub fn f() { let r = %s; let mut ev = from_reader(&r); let mut a = ev.iter(); a.next(); drop(ev); }" % mk)

w("text-outlived", "a string is modified while a reader borrows it", BORROW,
  "pub fn f() { let mut s = String::from(\"a\"); let r = from_utf8(&s); s.push('b'); for _e in from_reader(&r) {} }",
  "pub fn f() { let mut s = String::from(\"a\"); s.push('b'); let r = from_utf8(&s); for _e in from_reader(&r) {} }")
w("text-dropped", "a string is dropped while a reader borrows it", BORROW,
  "pub fn f() { let s = String::from(\"a\"); let r = from_utf8(&s); drop(s); for _e in from_reader(&r) {} }",
  "pub fn f() { let s = String::from(\"a\"); let r = from_utf8(&s); for _e in from_reader(&r) {} drop(s); }")
w("bytes-dropped", "a byte buffer is dropped while a reader borrows it", BORROW,
  "pub fn f() { let s = vec![b'a']; let r = try_from_bytes(&s).unwrap(); drop(s); for _e in from_reader(&r) {} }",
  "pub fn f() { let s = vec![b'a']; let r = try_from_bytes(&s).unwrap(); for _e in from_reader(&r) {} drop(s); }")
w("extend-events", "an event is given a longer lifetime", BORROW,
  "pub fn f<'a>(e: Event<'a>) -> Event<'static> { e }",
  "pub fn f<'a>(e: Event<'static>) -> Event<'a> { e }")
w("extend-scalar", "a scalar is given a longer lifetime", BORROW,
  "pub fn f<'a>(e: ScalarLike<'a>) -> ScalarLike<'static> { e }",
  "pub fn f<'a>(e: ScalarLike<'static>) -> ScalarLike<'a> { e }")
w("extend-evaluated", "an evaluated scalar is given a longer lifetime", BORROW,
  "pub fn f<'a>(e: ScalarLike<'a>) -> Scalar<'static> { e.evaluate().ok().unwrap() }",
  "pub fn f<'a>(e: ScalarLike<'a>) -> Scalar<'a> { e.evaluate().ok().unwrap() }")
w("extend-lazy", "a lazy scalar is given a longer lifetime", BORROW,
  "pub fn f<'a>(e: ScalarLazy<'a>) -> Scalar<'static> { e.evaluate().ok().unwrap() }",
  "pub fn f<'a>(e: ScalarLazy<'a>) -> Scalar<'a> { e.evaluate().ok().unwrap() }")
w("extend-iter-item", "an iterator yields events that outlive the reader's borrow", BORROW,
  "pub fn f<'a>(it: &mut EventIter<'a, OwnedReader>) -> Option<Event<'static>> { it.next().and_then(|e| e.ok()) }",
  "pub fn f<'a>(it: &mut EventIter<'a, OwnedReader>) -> Option<Event<'a>> { it.next().and_then(|e| e.ok()) }")
w("extend-iterref-item", "a borrowed iterator yields events that outlive the reader's borrow", BORROW,
  "pub fn f<'a>(it: &mut EventIterRef<'_, 'a, OwnedReader>) -> Option<Event<'static>> { it.next().and_then(|e| e.ok()) }",
  "pub fn f<'a>(it: &mut EventIterRef<'_, 'a, OwnedReader>) -> Option<Event<'a>> { it.next().and_then(|e| e.ok()) }")
w("extend-reader", "a borrowing reader is given a longer lifetime", BORROW,
  "pub fn f<'a>(s: &'a str) -> BorrowReader<'static> { from_utf8(s) }",
  "pub fn f<'a>(s: &'a str) -> BorrowReader<'a> { from_utf8(s) }")
w("extend-bytes-reader", "a borrowing reader over bytes is given a longer lifetime", BORROW,
  "pub fn f<'a>(s: &'a [u8]) -> BorrowReader<'static> { try_from_bytes(s).ok().unwrap() }",
  "pub fn f<'a>(s: &'a [u8]) -> BorrowReader<'a> { try_from_bytes(s).ok().unwrap() }")
w("extend-events-new", "an event stream is given a longer lifetime than the reader's borrow", BORROW,
  "pub fn f<'a>(r: &'a OwnedReader) -> Events<'static, OwnedReader> { from_reader_with(r, flag::O_NIL) }",
  "pub fn f<'a>(r: &'a OwnedReader) -> Events<'a, OwnedReader> { from_reader_with(r, flag::O_NIL) }")
w("owned-source-borrow", "an owning reader keeps a borrowed source", BORROW,
  "pub fn f<'a>(s: &'a [u8]) -> OwnedReader { from_read(s) }",
  "pub fn f(s: &'static [u8]) -> OwnedReader { from_read(s) }")
w("owned-new-source-borrow", "an owning reader keeps a borrowed source (constructor)", BORROW,
  "pub fn f<'a>(s: &'a [u8]) -> OwnedReader { OwnedReader::new(s) }",
  "pub fn f(s: &'static [u8]) -> OwnedReader { OwnedReader::new(s) }")
# --- the reader trait is sealed
w("impl-read", "the reader trait is implemented outside of the library", SEAL,
  "#[derive(Debug)] pub struct Mine; impl Read for Mine { fn drive<'de>(&'de self, c: ReadContext<'_, '_, 'de>) -> Result<(), <Wit as Err>::E> { loop {} } }\npub struct Wit; pub trait Err { type E; } impl Err for Wit { type E = (); }",
  "pub fn f<R: Read>(r: &R) { for _e in from_reader(r) {} }")
for path in ["yary::reader::error::ReadError", "yary::reader::ReadError", "yary::error::ReadError", "yary::ReadError"]:
    w("impl-read-%s" % path.replace("::", "-"), "the reader trait is implemented outside of the library, naming %s" % path, SEAL,
      "#[derive(Debug)] pub struct Mine; impl Read for Mine { fn drive<'de>(&'de self, c: ReadContext<'_, '_, 'de>) -> Result<(), %s> { loop {} } }" % path,
      "pub fn f<R: Read>(r: &R) { for _e in from_reader(r) {} }")
w("impl-read-empty", "the reader trait is implemented outside of the library by its default methods", SEAL,
  "#[derive(Debug)] pub struct Mine; impl Read for Mine {}", "pub fn f<R: Read>(r: &R) { for _e in from_reader(r) {} }")
w("name-seal", "the sealing trait is named outside of the library", ["E0603"],
  "use yary::reader::private::Sealed;", "use yary::reader::Read as _R;")
w("impl-seal", "the sealing trait is implemented outside of the library", ["E0603", "E0433", "E0432"],
  "pub struct Mine; impl yary::reader::private::Sealed for Mine {}", "pub struct Mine; impl std::fmt::Debug for Mine { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }")
w("foreign-reader", "a foreign type is used as a reader", ["E0277"],
  "#[derive(Debug)] pub struct Mine; pub fn f(m: &Mine) { for _e in from_reader(m) {} }",
  "pub fn f(m: &OwnedReader) { for _e in from_reader(m) {} }")
w("str-reader", "a string is used as a reader", ["E0277"],
  "pub fn f(m: &String) { for _e in from_reader(m) {} }",
  "pub fn f(m: &String) { let r = from_utf8(m); for _e in from_reader(&r) {} }")
# --- the scanner context cannot be forged or taken apart
w("context-new", "a scanner context is constructed outside of the library", ["E0624", "E0603", "E0599"],
  "pub fn f() { let c = ReadContext::new(todo!(), todo!(), todo!()); }", "pub fn f(c: ReadContext<'_, '_, '_>) { drop(c) }")
w("context-literal", "a scanner context is built field by field", ["E0451", "E0063", "E0603", "E0423"],
  "pub fn f() -> ReadContext<'static, 'static, 'static> { ReadContext { scanner: todo!(), queue: todo!(), flags: todo!() } }", "pub fn f(c: ReadContext<'static, 'static, 'static>) -> ReadContext<'static, 'static, 'static> { c }")
for fld in ["scanner", "queue", "flags"]:
    w("context-field-%s" % fld, "the scanner context's %s is reached from outside" % fld, ["E0616", "E0609", "E0451"],
      "pub fn f(c: ReadContext<'_, '_, '_>) { let _x = c.%s; }" % fld, "pub fn f(c: ReadContext<'_, '_, '_>) { let _x = c; }")
w("context-default", "a scanner context is made out of nothing", ["E0277", "E0599"],
  "pub fn f() -> ReadContext<'static, 'static, 'static> { Default::default() }", "pub fn f(c: ReadContext<'static, 'static, 'static>) -> ReadContext<'static, 'static, 'static> { c }")
w("context-clone", "a scanner context is duplicated", ["E0382", "E0599", "E0505"],
  "pub fn f<'d>(r: &'d OwnedReader, c: ReadContext<'_, '_, 'd>) { let _a = r.drive(c); let _b = r.drive(c); }",
  "pub fn f<'d>(r: &'d OwnedReader, c: ReadContext<'_, '_, 'd>, d: ReadContext<'_, '_, 'd>) { let _a = r.drive(c); let _b = r.drive(d); }")
w("context-borrow", "tokens of a short borrow are put into a longer lived queue", BORROW,
  "pub fn f<'a, 'd>(r: &'a OwnedReader, c: ReadContext<'_, '_, 'd>) where 'd: 'a { let _a = r.drive(c); }",
  "pub fn f<'d>(r: &'d OwnedReader, c: ReadContext<'_, '_, 'd>) { let _a = r.drive(c); }")
w("consume-safe", "memory is released without an unsafe block", ["E0133"],
  "pub fn f(r: &OwnedReader) { let _ = r.consume(0); }", "pub fn f(r: &OwnedReader) { let _ = unsafe { r.consume(0) }; }")
for m in ["scanner", "queue", "token"]:
    w("private-%s" % m, "the %s module is reachable from outside" % m, ["E0603", "E0433", "E0432"],
      "use yary::%s as m;" % m, "use yary::event as m;")
# --- threads
for t, twin in [("OwnedReader", "BorrowReader<'static>")]:
    w("sync-%s" % t, "%s is shared between threads" % t, ["E0277"],
      "fn need<T: Sync>() {} pub fn f() { need::<%s>() }" % t, "fn need<T: Sync>() {} pub fn f() { need::<%s>() }" % twin)
    w("share-%s" % t, "a reference to %s is sent to another thread" % t, ["E0277"],
      "pub fn f(r: &'static %s) { std::thread::spawn(move || { for _e in from_reader(r) {} }); }" % t,
      "pub fn f(r: &'static %s) { std::thread::spawn(move || { for _e in from_reader(r) {} }); }" % twin)
    w("scope-%s" % t, "two scoped threads parse one %s" % t, ["E0277"],
      "pub fn f(r: %s) { std::thread::scope(|s| { s.spawn(|| for _e in from_reader(&r) {}); s.spawn(|| for _e in from_reader(&r) {}); }); }" % t,
      "pub fn f(r: %s) { std::thread::scope(|s| { s.spawn(|| for _e in from_reader(&r) {}); s.spawn(|| for _e in from_reader(&r) {}); }); }" % twin)
    w("send-events-%s" % t, "an event stream over %s is sent to another thread" % t, ["E0277"],
      "pub fn f(e: Events<'static, %s>) { std::thread::spawn(move || for _e in e {}); }" % t,
      "pub fn f(e: Events<'static, %s>) { std::thread::spawn(move || for _e in e {}); }" % twin)
    w("send-iter-%s" % t, "an event iterator over %s is sent to another thread" % t, ["E0277"],
      "pub fn f(e: EventIter<'static, %s>) { std::thread::spawn(move || for _e in e {}); }" % t,
      "pub fn f(e: EventIter<'static, %s>) { std::thread::spawn(move || for _e in e {}); }" % twin)
w("send-iterref", "a borrowing event iterator over an owning reader is sent to another thread", ["E0277"],
  "pub fn f(e: EventIterRef<'static, 'static, OwnedReader>) { std::thread::spawn(move || for _e in e {}); }",
  "pub fn f(e: EventIterRef<'static, 'static, BorrowReader<'static>>) { std::thread::spawn(move || for _e in e {}); }")
w("send-unsendable", "an owning reader sends a thread-bound source to another thread", ["E0277"],
  "pub struct L(std::rc::Rc<()>); impl std::io::Read for L { fn read(&mut self, _b: &mut [u8]) -> std::io::Result<usize> { Ok(0) } } pub fn f(l: L) { let r = from_read(l); std::thread::spawn(move || { let r = r; drop(r) }); }",
  "pub struct L(std::rc::Rc<()>); impl std::io::Read for L { fn read(&mut self, _b: &mut [u8]) -> std::io::Result<usize> { Ok(0) } } pub fn f(l: L) { let r = from_read(l); drop(r); }")
w("arc-share", "an owning reader is shared through an Arc", ["E0277"],
  "pub fn f(r: OwnedReader) { let a = std::sync::Arc::new(r); let b = a.clone(); std::thread::spawn(move || { for _e in from_reader(&*b) {} }); drop(a); }",
  "pub fn f(r: BorrowReader<'static>) { let a = std::sync::Arc::new(r); let b = a.clone(); std::thread::spawn(move || { for _e in from_reader(&*b) {} }); drop(a); }")
w("static-reader", "an owning reader is put into a static", ["E0277"],
  "pub static R: std::sync::OnceLock<OwnedReader> = std::sync::OnceLock::new();",
  "pub static R: std::sync::OnceLock<BorrowReader<'static>> = std::sync::OnceLock::new();")

def rlib(build):
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(build, "witness"))
    env.pop("RUSTC_WRAPPER", None)
    r = subprocess.run(["cargo", "check", "--offline", "--message-format=json"], cwd=os.path.join(HERE, "witness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        print("ERROR: yary does not build\n" + r.stderr[-3000:]); sys.exit(2)
    for l in r.stdout.splitlines():
        try: m = json.loads(l)
        except ValueError: continue
        if m.get("reason") == "compiler-artifact" and m["target"]["name"] == "yary":
            for f in m["filenames"]:
                if f.endswith(".rmeta"): return f
    print("ERROR: yary's metadata was not built"); sys.exit(2)

def compile_(src, meta, tmp, name):
    f = os.path.join(tmp, re.sub(r"\W", "_", name) + ".rs")
    open(f, "w").write(src)
    r = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "lib", "--emit", "metadata", "--error-format", "json", "-o", f + ".rmeta", "--extern", "yary=" + meta, "-L", "dependency=" + os.path.dirname(meta), f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    errs = []
    for l in r.stderr.splitlines():
        try: m = json.loads(l)
        except ValueError: continue
        if m.get("level", "").startswith("error") and not m["message"].startswith("aborting"):
            c = (m.get("code") or {}).get("code")
            if not c and ("lifetime may not live long enough" in m["message"] or "borrowed data escapes" in m["message"]): c = "lifetime"
            errs.append((c, m["message"]))
    return r.returncode == 0, errs

def run(tier, build):
    meta = rlib(build)
    rep = {"prop": "P10", "rule": "each program that breaks a borrow, sealing or thread rule of the API is rejected by rustc with an error standing for that rule, and its twin that obeys the rule compiles",
           "obligations": 0, "discharged": 0, "findings": {}, "undecided": {}, "analysed": [], "lists": {}, "numbers": {}}
    with tempfile.TemporaryDirectory(dir=build) as tmp, ThreadPoolExecutor(8) as ex:
        jobs = [(x, ex.submit(compile_, x[3], meta, tmp, x[0] + "_bad"), ex.submit(compile_, x[4], meta, tmp, x[0] + "_good")) for x in W]
        for (name, rule, codes, bad, good), jb, jg in jobs:
            (bok, berr), (gok, gerr) = jb.result(), jg.result()
            rep["analysed"].append(name)
            rep["obligations"] += 2
            if not gok: rep["undecided"]["twin:" + name] = "the twin that obeys the rule does not compile: %s" % "; ".join("%s %s" % e for e in gerr[:2])
            else: rep["discharged"] += 1
            if bok: rep["findings"]["accepted:" + name] = "rustc accepts a program in which %s:\n%s" % (rule, bad)
            elif not any(c in codes for c, _ in berr): rep["undecided"]["other:" + name] = "rejected, but not by the rule: %s" % "; ".join("%s %s" % e for e in berr[:2])
            else: rep["discharged"] += 1
    rep["numbers"] = {"witnesses": len(W), "twins": len(W)}
    rep["lists"] = {"rules": [x[1] for x in W]}
    return rep

if __name__ == "__main__":
    b = os.path.join(HERE, ".build")
    os.makedirs(b, exist_ok=True)
    r = run("quick", b)
    print(r["numbers"], "findings", len(r["findings"]), "undecided", len(r["undecided"]))
    for k, v in list(r["findings"].items()) + list(r["undecided"].items()): print(k, "::", v)
