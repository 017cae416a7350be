//! The two oracles the parser is compared with: the documented event grammar
//! (positions) and the documented token productions (reference states).

// ---- tokens
pub const KINDS: [&str; 21] = ["StreamStart", "StreamEnd", "VersionDirective", "TagDirective", "DocumentStart", "DocumentEnd",
    "BlockSequenceStart", "BlockMappingStart", "BlockEnd", "FlowSequenceStart", "FlowSequenceEnd", "FlowMappingStart", "FlowMappingEnd",
    "BlockEntry", "FlowEntry", "Key", "Value", "Alias", "Anchor", "Tag", "Scalar"];
pub const NONE: u8 = 255;
pub mod k {
    pub const STREAM_START: u8 = 0; pub const STREAM_END: u8 = 1; pub const VERSION: u8 = 2; pub const TAGDIR: u8 = 3; pub const DOC_START: u8 = 4; pub const DOC_END: u8 = 5;
    pub const BSEQ: u8 = 6; pub const BMAP: u8 = 7; pub const BEND: u8 = 8; pub const FSEQ: u8 = 9; pub const FSEQ_END: u8 = 10; pub const FMAP: u8 = 11; pub const FMAP_END: u8 = 12;
    pub const BENTRY: u8 = 13; pub const FENTRY: u8 = 14; pub const KEY: u8 = 15; pub const VALUE: u8 = 16; pub const ALIAS: u8 = 17; pub const ANCHOR: u8 = 18; pub const TAG: u8 = 19; pub const SCALAR: u8 = 20;
}

// ---- events
pub const EVENTS: [&str; 10] = ["StreamStart", "StreamEnd", "DocumentStart", "DocumentEnd", "Alias", "Scalar", "SequenceStart", "SequenceEnd", "MappingStart", "MappingEnd"];
pub mod e {
    pub const STREAM_START: u8 = 0; pub const STREAM_END: u8 = 1; pub const DOC_START: u8 = 2; pub const DOC_END: u8 = 3; pub const ALIAS: u8 = 4;
    pub const SCALAR: u8 = 5; pub const SEQ_START: u8 = 6; pub const SEQ_END: u8 = 7; pub const MAP_START: u8 = 8; pub const MAP_END: u8 = 9;
}

// ---- positions of the event grammar
pub const POS: [&str; 9] = ["before the stream", "before the first document", "between documents", "in a document before its content", "in a document after its content", "in a sequence", "before a mapping key", "before a mapping value", "after the stream"];
pub const P_START: u8 = 0;
pub const P_END: u8 = 8;
/// The node kind a position dictates.
pub fn kind_at(p: u8) -> Option<&'static str> { match p { 3 => Some("Root"), 5 => Some("Entry"), 6 => Some("Key"), 7 => Some("Value"), _ => None } }
/// Advance the position stack over an event; None when the grammar has no such event there.
pub fn accept(os: &mut Vec<u8>, ev: u8) -> bool {
    let Some(p) = os.last().copied() else { return false };
    let n = os.len() - 1;
    match (p, ev) {
        (0, e::STREAM_START) => os[n] = 1,
        (1, e::DOC_START) | (2, e::DOC_START) => { os[n] = 2; os.push(3) }
        (2, e::STREAM_END) => os[n] = 8,
        (3, e::DOC_END) | (4, e::DOC_END) => { os.pop(); }
        (3, e::SCALAR) | (3, e::ALIAS) | (3, e::SEQ_START) | (3, e::MAP_START) => { os[n] = 4; start(os, ev) }
        (5, e::SEQ_END) | (6, e::MAP_END) => { os.pop(); }
        (5, e::SCALAR) | (5, e::ALIAS) | (5, e::SEQ_START) | (5, e::MAP_START) => start(os, ev),
        (6, e::SCALAR) | (6, e::ALIAS) | (6, e::SEQ_START) | (6, e::MAP_START) => { os[n] = 7; start(os, ev) }
        (7, e::SCALAR) | (7, e::ALIAS) | (7, e::SEQ_START) | (7, e::MAP_START) => { os[n] = 6; start(os, ev) }
        _ => return false,
    }
    true
}
fn start(os: &mut Vec<u8>, ev: u8) { match ev { e::SEQ_START => os.push(5), e::MAP_START => os.push(6), _ => {} } }

// ---- reference states of the token productions
pub mod r {
    pub const STREAM: u8 = 0; pub const DOC_FIRST: u8 = 1; pub const DOC_IMPLICIT: u8 = 2; pub const DOC_EXPLICIT: u8 = 3; pub const DOC_DIR: u8 = 4; pub const DOC_DIR_V: u8 = 5;
    pub const STREAM_END: u8 = 6; pub const DONE: u8 = 7; pub const DOC_CONTENT: u8 = 8; pub const DOC_END: u8 = 9;
    pub const BSEQ: u8 = 10; pub const BSEQ1: u8 = 11; pub const BKEY: u8 = 12; pub const BKEY1: u8 = 13; pub const BVAL: u8 = 14; pub const BVAL1: u8 = 15;
    pub const FSEQ_FIRST: u8 = 16; pub const FSEQ: u8 = 17; pub const FSEQ1: u8 = 18; pub const FSM_KEY: u8 = 19; pub const FSM_VAL: u8 = 20; pub const FSM_VAL1: u8 = 21; pub const FSM_END: u8 = 22;
    pub const FMAP_FIRST: u8 = 23; pub const FMAP: u8 = 24; pub const FKEY1: u8 = 25; pub const FKEY2: u8 = 26; pub const FVAL: u8 = 27; pub const FVAL1: u8 = 28; pub const FVAL_EMPTY: u8 = 29;
    /// a node: NODE + 1 block context + 2 anchor seen + 4 tag seen
    pub const NODE: u8 = 32;
}
pub const STATES: [&str; 30] = ["start of stream", "first document", "document after an explicit end", "document after an implicit end", "directives", "directives after %YAML", "stream end", "finished", "explicit document content", "document end",
    "block sequence", "block sequence entry", "block mapping key", "block mapping key content", "block mapping value", "block mapping value content",
    "flow sequence start", "flow sequence", "flow sequence entry", "single pair key", "single pair value", "single pair value content", "single pair end",
    "flow mapping start", "flow mapping", "flow mapping entry", "flow mapping key", "flow mapping value", "flow mapping value content", "omitted flow mapping value"];
pub fn state_name(s: u8) -> String {
    if s >= r::NODE {
        let n = s - r::NODE;
        format!("{} node{}{}", if n & 1 > 0 { "block" } else { "flow" }, if n & 2 > 0 { " with an anchor" } else { "" }, if n & 4 > 0 { " with a tag" } else { "" })
    } else { STATES[s as usize].to_string() }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct RefEv { pub ev: u8, /// 0 no, 1 yes, 2 not applicable
    pub implicit: u8, /// an empty scalar the parser makes up
    pub empty: u8 }
impl RefEv {
    pub fn show(&self) -> String { format!("{}{}{}", EVENTS[self.ev as usize], match self.implicit { 0 => " (explicit)", 1 => " (implicit)", _ => "" }, match self.empty { 1 => " (omitted)", _ => "" }) }
}
#[derive(Clone, PartialEq, Eq)]
pub enum Step { Silent, Emit(RefEv), Error, Need }

/// One step of the reference.  `tok` is the next token, if known; the stack is updated and the result tells whether the token was consumed.
pub fn step(os: &mut Vec<u8>, tok: Option<u8>) -> (Step, bool) {
    use Step::*;
    let Some(s) = os.last().copied() else { return (Error, false) };
    let n = os.len() - 1;
    let ev = |ev: u8| Emit(RefEv { ev, implicit: 2, empty: 2 });
    let doc = |i: bool| Emit(RefEv { ev: e::DOC_START, implicit: i as u8, empty: 2 });
    let empty = Emit(RefEv { ev: e::SCALAR, implicit: 2, empty: 1 });
    if s == r::FSM_END { os.pop(); return (ev(e::MAP_END), false) }
    if s == r::FVAL_EMPTY { os[n] = r::FMAP; return (empty, false) }
    if s == r::DONE { return (Error, false) }
    let Some(t) = tok else { return (Need, false) };
    let node = |os: &mut Vec<u8>, next: u8, block: bool| { let n = os.len() - 1; os[n] = next; os.push(r::NODE + block as u8); };
    match s {
        r::STREAM => if t == k::STREAM_START { os[n] = r::DOC_FIRST; (ev(e::STREAM_START), true) } else { (Error, false) },
        r::DOC_FIRST | r::DOC_IMPLICIT => match t {
            k::DOC_END if s == r::DOC_IMPLICIT => (Silent, true),
            k::TAGDIR | k::VERSION | k::DOC_START => { os[n] = r::DOC_DIR; (Silent, false) }
            k::STREAM_END if s == r::DOC_FIRST => { os[n] = r::DOC_END; (doc(true), false) }
            k::STREAM_END => { os[n] = r::STREAM_END; (Silent, false) }
            _ => { node(os, r::DOC_END, true); (doc(true), false) }
        },
        r::DOC_EXPLICIT => match t {
            k::DOC_END => (Silent, true),
            k::STREAM_END => { os[n] = r::STREAM_END; (Silent, false) }
            _ => { os[n] = r::DOC_DIR; (Silent, false) }
        },
        r::DOC_DIR | r::DOC_DIR_V => match t {
            k::VERSION if s == r::DOC_DIR => { os[n] = r::DOC_DIR_V; (Silent, true) }
            k::TAGDIR => (Silent, true),
            k::DOC_START => { os[n] = r::DOC_END; os.push(r::DOC_CONTENT); (doc(false), true) }
            _ => (Error, false),
        },
        r::STREAM_END => if t == k::STREAM_END { os[n] = r::DONE; (ev(e::STREAM_END), true) } else { (Error, false) },
        r::DOC_CONTENT => match t {
            k::VERSION | k::TAGDIR | k::DOC_START | k::DOC_END | k::STREAM_END => { os.pop(); (Silent, false) }
            _ => { os[n] = r::NODE + 1; (Silent, false) }
        },
        r::DOC_END => {
            let x = t == k::DOC_END;
            os[n] = if x { r::DOC_IMPLICIT } else { r::DOC_EXPLICIT };
            (Emit(RefEv { ev: e::DOC_END, implicit: !x as u8, empty: 2 }), x)
        }
        r::BSEQ => match t { k::BENTRY => { os[n] = r::BSEQ1; (Silent, true) } k::BEND => { os.pop(); (ev(e::SEQ_END), true) } _ => (Error, false) },
        r::BSEQ1 => match t { k::BENTRY | k::BEND => { os[n] = r::BSEQ; (empty, false) } _ => { node(os, r::BSEQ, true); (Silent, false) } },
        r::BKEY => match t { k::KEY => { os[n] = r::BKEY1; (Silent, true) } k::BEND => { os.pop(); (ev(e::MAP_END), true) } _ => (Error, false) },
        r::BKEY1 => match t { k::KEY | k::VALUE | k::BEND => { os[n] = r::BVAL; (empty, false) } _ => { node(os, r::BVAL, true); (Silent, false) } },
        r::BVAL => match t { k::VALUE => { os[n] = r::BVAL1; (Silent, true) } _ => { os[n] = r::BKEY; (empty, false) } },
        r::BVAL1 => match t { k::KEY | k::VALUE | k::BEND => { os[n] = r::BKEY; (empty, false) } _ => { node(os, r::BKEY, true); (Silent, false) } },
        r::FSEQ_FIRST => match t { k::FSEQ_END => { os.pop(); (ev(e::SEQ_END), true) } _ => { os[n] = r::FSEQ1; (Silent, false) } },
        r::FSEQ => match t { k::FSEQ_END => { os.pop(); (ev(e::SEQ_END), true) } k::FENTRY => { os[n] = r::FSEQ1; (Silent, true) } _ => (Error, false) },
        r::FSEQ1 => match t {
            k::KEY => { os[n] = r::FSEQ; os.push(r::FSM_KEY); (ev(e::MAP_START), true) }
            k::FSEQ_END => { os.pop(); (ev(e::SEQ_END), true) }
            _ => { node(os, r::FSEQ, false); (Silent, false) }
        },
        r::FSM_KEY => match t { k::VALUE | k::FENTRY | k::FSEQ_END => { os[n] = r::FSM_VAL; (empty, false) } _ => { node(os, r::FSM_VAL, false); (Silent, false) } },
        r::FSM_VAL => match t { k::VALUE => { os[n] = r::FSM_VAL1; (Silent, true) } _ => { os[n] = r::FSM_END; (empty, false) } },
        r::FSM_VAL1 => match t { k::FENTRY | k::FSEQ_END => { os[n] = r::FSM_END; (empty, false) } _ => { node(os, r::FSM_END, false); (Silent, false) } },
        r::FMAP_FIRST => { os[n] = r::FKEY1; (Silent, false) }
        r::FMAP => match t { k::FMAP_END => { os.pop(); (ev(e::MAP_END), true) } k::FENTRY => { os[n] = r::FKEY1; (Silent, true) } _ => (Error, false) },
        r::FKEY1 => match t {
            k::KEY => { os[n] = r::FKEY2; (Silent, true) }
            k::FMAP_END => { os.pop(); (ev(e::MAP_END), true) }
            _ => { node(os, r::FVAL_EMPTY, false); (Silent, false) }
        },
        r::FKEY2 => match t { k::VALUE | k::FENTRY | k::FMAP_END => { os[n] = r::FVAL; (empty, false) } _ => { node(os, r::FVAL, false); (Silent, false) } },
        r::FVAL => match t { k::VALUE => { os[n] = r::FVAL1; (Silent, true) } _ => { os[n] = r::FMAP; (empty, false) } },
        r::FVAL1 => match t { k::FENTRY | k::FMAP_END => { os[n] = r::FMAP; (empty, false) } _ => { node(os, r::FMAP, false); (Silent, false) } },
        _ => {
            let f = s - r::NODE;
            let (block, anchor, tag) = (f & 1 > 0, f & 2 > 0, f & 4 > 0);
            match t {
                k::ALIAS if !anchor && !tag => { os.pop(); (ev(e::ALIAS), true) }
                k::ANCHOR if !anchor => { os[n] = s | 2; (Silent, true) }
                k::TAG if !tag => { os[n] = s | 4; (Silent, true) }
                k::FSEQ => { os[n] = r::FSEQ_FIRST; (ev(e::SEQ_START), true) }
                k::FMAP => { os[n] = r::FMAP_FIRST; (ev(e::MAP_START), true) }
                k::BSEQ if block => { os[n] = r::BSEQ; (ev(e::SEQ_START), true) }
                k::BMAP if block => { os[n] = r::BKEY; (ev(e::MAP_START), true) }
                k::SCALAR => { os.pop(); (Emit(RefEv { ev: e::SCALAR, implicit: 2, empty: 0 }), true) }
                _ if anchor || tag => { os.pop(); (empty, false) }
                _ => (Error, false),
            }
        }
    }
}
