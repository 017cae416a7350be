#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the file stays uniform)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

PARSER = "src/event/parser/mod.rs"
p("P01", "The event stream always follows the documented event grammar",
  "For every input, reader and flag setting, the events yielded before the first error are a prefix of stream := StreamStart document+ StreamEnd, document := DocumentStart node? DocumentEnd, sequence := SequenceStart node* SequenceEnd, mapping := MappingStart (node node)* MappingEnd, node := Alias | Scalar | sequence | mapping. Start and end events are therefore always balanced and properly nested, and every mapping has one value per key.",
  ["inputs", "histories"], "every token history the scanner could hand the parser, every nesting depth",
  "The tests replay a few dozen hand written token lists; nesting and interleaving of collections is unbounded.",
  [PARSER, "src/event/state.rs", "src/event/mod.rs"],
  [("state transition routines", PARSER), ("StateMachine push/pop", "src/event/state.rs")],
  [("state machine stack", "what the parser still owes the consumer", "src/event/state.rs")], ["EventIter::next"])
p("P02", "Node events carry the NodeKind of their position",
  "Every Scalar, SequenceStart and MappingStart event is labelled with the kind its grammatical position dictates: Root directly under a document, Entry inside a sequence, Key and Value for the alternating nodes of a mapping. Nodes the parser makes up for omitted keys and values are labelled the same way.",
  ["inputs", "histories"], "every token history and nesting depth",
  "Each production passes its own literal kind; the tests visit only some of the (context, node form) pairs.",
  [PARSER, "src/event/types.rs"], [("node production and its callers", PARSER)], None, ["EventIter::next", "Node::kind"])
p("P03", "Every request for an event makes progress; the stream end is final",
  "Each call to next on an event iterator performs finitely many steps for finitely many tokens: no cycle of parser states returns to itself without either consuming a token or removing an entry from the state stack, and no unbounded run of events is produced without consuming tokens. Once StreamEnd has been yielded every further call yields None and touches no token.",
  ["inputs", "histories"], "every reachable parser configuration",
  "A livelock needs a particular token after a particular state; the tests stop at the expected last event.",
  [PARSER, "src/event/state.rs"], [("event loop and state dispatch", PARSER)], None, ["EventIter::next"])
p("P04", "Events deliver the anchors, tags, aliases and scalars of their tokens",
  "A node event carries exactly the anchor and the tag that precede it in the token stream, in either order and at most one each; an Alias event carries the alias's name and a Scalar event the scalar's contents, and none of these is dropped, duplicated or attached to a different node. Nodes without an anchor or tag report none; the lone `!` tag of a scalar, which asks for no tag resolution, is not reported.",
  ["inputs", "histories"], "every token history; every combination and order of node properties",
  "Property order, repeated properties and properties on omitted nodes multiply beyond the sampled cases.",
  [PARSER, "src/event/types.rs"], [("node production, anchor and tag fetching", PARSER)], None, ["Event::data"])
p("P05", "The parser accepts exactly the documented token productions",
  "In every parser configuration the next token decides the same outcome as YAML's token productions as listed in this crate (which tokens are consumed, which node is produced or synthesised as empty, which collection is closed, and which tokens are an error), so that no structurally invalid token sequence is reported as a valid event stream and no valid one is rejected.",
  ["inputs", "histories"], "every pair of parser configuration and next token(s)",
  "The product of 24 configurations and 21 token kinds is mostly unvisited by the tests.",
  [PARSER, "src/event/state.rs"], [("state transition routines", PARSER)], None, ["EventIter::next"])
p("P06", "No input makes the parser side panic",
  "Driving an event iterator over any byte or character stream, through any reader and with any flags, and evaluating any lazy scalar it yields, never panics: no out of bounds or non character boundary slice, no arithmetic overflow, no failed unwrap, no reachable unreachable! or debug assertion.",
  ["inputs"], "every input string, every flag combination, every chunk boundary",
  "Panics sit behind multibyte characters, truncated escapes, buffer ends and rare token orders; tests only sample well formed ASCII.",
  ["src/scanner/mod.rs", "src/scanner/scalar/plain.rs", "src/scanner/scalar/flow.rs", "src/scanner/scalar/block.rs", "src/scanner/tag.rs", PARSER],
  [("byte scanning macros", "src/scanner/macros.rs"), ("escape decoding", "src/scanner/scalar/escape.rs")], None, ["EventIter::next", "ScalarLike::evaluate"])
p("P07", "Chunk boundaries never decide a token",
  "While a reader says that more input may follow, the scanner never produces a token, an error or a committed position because the bytes it can currently see happen to end: it either asks for more input or reaches a decision that every continuation of those bytes would also have reached.",
  ["inputs", "histories"], "every input and every way of splitting it into chunks",
  "There are exponentially many splittings; the tests use a handful of buffer sizes.",
  ["src/scanner/mod.rs", "src/reader/owned.rs", "src/scanner/macros.rs"],
  [("cache! and the extend protocol", "src/scanner/macros.rs"), ("offset commit", "src/scanner/mod.rs")], None, ["Read::drive", "EventIter::next"])
p("P08", "Lazy scalars are evaluated with the parameters they were scanned with",
  "A scalar handed out unevaluated retains the exact text range and indentation it was found at, and evaluating it runs the eager scanner of the same style over that same text as final, complete input; it can never ask for more input. Evaluation happens at most once and an already evaluated scalar is returned unchanged.",
  ["inputs", "histories"], "every scalar style, flag combination and evaluation order",
  "Lazy mode is a whole second code path selected by a flag, sampled by few tests.",
  ["src/event/types.rs", "src/scanner/scalar/plain.rs", "src/scanner/scalar/flow.rs", "src/scanner/scalar/block.rs"],
  [("Deferred scalars", "src/scanner/scalar"), ("evaluate", "src/event/types.rs")], None, ["ScalarLike::evaluate"])
p("P09", "Token data borrowed from an owning reader is never invalidated",
  "Text handed out by a reader that owns its buffer stays valid and unmodified for as long as the reader is borrowed: buffers already handed out are never mutated, shrunk or freed through a shared reference, and only the operation that requires exclusive access may release them.",
  ["histories", "schedules"], "every interleaving of reading, holding events and releasing buffers",
  "A use after free only shows with a specific allocation history; the tests run no memory checker.",
  ["src/reader/owned.rs", "src/reader/mod.rs"], [("unsafe interior mutation", "src/reader/owned.rs")], None, ["OwnedReader"])
p("P10", "The API's borrow, sealing and thread rules are enforced by the type system",
  "No safe program can outlive a reader with the events borrowed from it, iterate two event streams over the same parser at once, implement the reader trait itself, forge the scanner context, or share the interior-mutable reader between threads: each such program fails to compile, while its legal twin compiles.",
  ["programs"], "every safe client program",
  "A test can only contain programs that compile.",
  ["src/reader/mod.rs", "src/reader/owned.rs", "src/event/mod.rs"], [("sealed trait, lifetimes, UnsafeCell", "src/reader")], None, ["public API"])
p("P11", "Errors keep their category and cause through every conversion",
  "Every failure reported to the user is classified by its origin: I/O errors as Data category Io, invalid UTF-8 and malformed YAML in the category documented for that failure, for every internal error kind and through every conversion to the public error and to std::io::Error. No two conversions disagree on the category of the same failure.",
  ["inputs", "fault_sequences"], "every internal error kind and every conversion chain",
  "Only a few error kinds are ever constructed by the tests and their category is not checked.",
  ["src/error.rs", "src/event/error.rs", "src/scanner/error.rs", "src/reader/error.rs"], [("category tables", "src/error.rs")], None, ["Error::classify"])
p("P12", "No failure is swallowed",
  "Every error produced by reading, decoding, scanning or validating is either returned to the caller of the operation that met it or converted into another error that is; no path discards an error and continues as if the operation had succeeded.",
  ["inputs", "fault_sequences"], "every call site of a fallible operation, every failure at it",
  "Faults cannot be injected at most of these points by the tests.",
  ["src/reader/owned.rs", "src/scanner/mod.rs", PARSER], [("? propagation", "src")], None, ["EventIter::next"])
p("P13", "Block collections opened by the scanner are closed, innermost first",
  "Outside flow collections, every block collection start token announces exactly one new indentation level, of the collection's kind, at the column of its first entry or key, deeper than the level around it (a sequence may also share its mapping's column), and every level ends with exactly one BlockEnd. A level ends, innermost first, before the first token that is indented less than it (or, for a sequence sharing its mapping's column, that is not an entry in that column), before a directive, a document marker and the end of the stream, never sooner and never inside a flow collection. Every entry, key and value belongs to an open collection in its own column, of its own kind.",
  ["inputs", "histories"], "every input and indentation history",
  "Indentation histories are unbounded; tests use shallow nestings.",
  ["src/scanner/mod.rs", "src/scanner/context.rs"], [("roll_indent / unroll_indent / pop_zero_indent_sequence", "src/scanner/mod.rs")], None, ["EventIter::next"])
p("P14", "Tokens leave the scanner in input order",
  "Tokens are delivered ordered by their position in the input, and tokens at the same position in the order they were produced, whatever order they were queued in; ordering is a total order and does not depend on token contents.",
  ["inputs", "histories"], "every queue history",
  "The heap's order only matters for late inserted keys; tests sample a few.",
  ["src/queue.rs", "src/scanner/entry.rs"], [("Queue, QueueEntry ordering", "src/queue.rs")], None, ["EventIter::next"])
p("P15", "Stack use is bounded independently of the input",
  "No operation of the library recurses: nesting depth of the input is kept on the heap, so that deeply nested documents, long inputs and large scalars cannot overflow the call stack.",
  ["inputs"], "every input, every nesting depth",
  "A stack overflow needs inputs far larger than any test and aborts the test process.",
  ["src"], [("explicit state stack", "src/event/state.rs"), ("iterative scanner", "src/scanner/mod.rs")], None, ["every public operation"])
p("P16", "The scanner's position moves with its text, and scanning resumes there",
  "In every step of the scanner, whether it queues a token, fails to find one or stops to ask for more input, the byte position it keeps advances by exactly as much as the text it consumes, so that every mark is the offset of the text it belongs to. Each further step, and the next call after more input arrived, continues exactly where the step before stopped, neither skipping nor rescanning text. (The counts which the scalar, tag, anchor, directive and white space scanners report for their own text are taken as given.)",
  ["inputs", "histories"], "every text a token can start with, in every scanner state, and every sequence of steps and stops for input",
  "Tests seldom assert marks, never after a step that stopped for more input, and sample only a few of the positions at which input can end.",
  ["src/scanner/stats.rs", "src/scanner/macros.rs", "src/scanner/mod.rs"], [("advance! position update", "src/scanner/macros.rs"), ("Scanner::scan_tokens offset", "src/scanner/mod.rs")], None, ["Event::start", "Event::end"])
p("P17", "Tag handles resolve per document and duplicates are rejected",
  "The directives reported for a document are the defaults overlaid with exactly the directives that document declares; a second YAML directive or a second declaration of the same handle in one document is an error, and nothing carries over to the next document. A node whose tag uses an undeclared handle is an error; a verbatim tag, which has none, is not.",
  ["inputs", "histories"], "every sequence of directives and documents",
  "The state persists across documents; tests use one or two documents.",
  [PARSER, "src/event/types.rs"], [("directive collection and tag validation", PARSER)], None, ["EventData::DocumentStart"])
p("P18", "Escape sequences decode to the characters YAML assigns them",
  "The decoders of escapes turn every single character escape into the code point of the YAML table, \\x, \\u and \\U take exactly 2, 4 and 8 hex digits and %XX exactly 2 per octet of one UTF-8 encoded character, every digit contributes its value, and the length reported is that of the escape. Everything else (unknown escapes, bad digits, values that name no character, octets that do not continue the character, ends of input) is an error.",
  ["inputs"], "every escape character and every digit string",
  "Only some escapes are tested, never surrogates or out of range code points.",
  ["src/scanner/scalar/escape.rs"], [("escape decoding", "src/scanner/scalar/escape.rs")], None, ["EventIter::next"])
p("P19", "Indicator characters start the tokens YAML assigns them",
  "The character(s) a token starts with, the context (block or flow) and column 0 decide what is scanned exactly as YAML's indicator table says: %, --- and ... only at column 0 (the markers only before white space), -, ? and : as indicators before white space (? and : anywhere in a flow collection), | and > only outside flow collections, ' and > selecting the single quoted and the folded style, @ and ` never, - before a flow indicator never in a flow collection, everything else a plain scalar. Opening brackets and braces deepen the flow nesting by one, closing ones undo it, nothing else changes it; the end of the text is the end of the stream.",
  ["inputs"], "all first bytes, following byte classes, both contexts, any column",
  "Only common indicators appear in tests, usually followed by a space.",
  ["src/scanner/mod.rs"], [("scan_next_token dispatch", "src/scanner/mod.rs")], None, ["EventIter::next"])
p("P20", "Implicit keys obey the one line, 1024 character rule",
  "A scalar, anchor, alias or tag where a simple key may start is remembered, with its position, as the possible key, and as required exactly when it sits at the current block indentation; a `:` then puts one Key at that very position, and without a possible key it puts none. A possible key is abandoned as soon as the scanner is on a later line or more than 1024 characters past it. Every other token that a key cannot span (a document or stream boundary, a bracket's end, `,`, `-`, `?`, a block scalar) drops it, and a required key that is abandoned or dropped before its `:` is an error, raised in no other case.",
  ["inputs", "histories"], "every key position, line and length",
  "Limits need inputs of a precise length.",
  ["src/scanner/key.rs", "src/scanner/mod.rs"], [("key staleness", "src/scanner/mod.rs")], None, ["EventIter::next"])
p("P21", "Scanned scalar text equals its YAML interpretation",
  "The contents of every scalar equal the YAML interpretation of its presentation: line folding, chomping, trimming and escape substitution.",
  ["inputs"], "every scalar presentation", "Unbounded combinations of breaks, indentation and styles.",
  ["src/scanner/scalar"], [("scalar scanners", "src/scanner/scalar")], None, ["EventIter::next"])
p("P22", "Scanning time and memory are linear in the input",
  "Total work and retained memory grow at most linearly with the input.",
  ["inputs"], "every input", "Tests use small inputs.",
  ["src/scanner", "src/reader"], [("scan loop", "src/scanner/mod.rs")], None, ["EventIter::next"])
p("P23", "Entries, keys and values are accepted exactly where they may start",
  "Outside flow collections, `- ` and `? ` are accepted exactly where a simple key may start, and `: ` exactly there or after a possible implicit key; elsewhere they are errors, and inside flow collections `? ` and `:` are always accepted and `- ` never. After every token, whether a simple key may start is what the token dictates: it may after line breaks in block context, block entries, block scalars, opening brackets, flow entries, explicit keys and values without an implicit key in block context, and may not after scalars, anchors, aliases, tags, closing brackets, values of implicit keys, keys and values in flow context, directives and document markers.",
  ["inputs", "histories"], "every token sequence and context",
  "The permission is carried from token to token; a wrong one only shows on the next line or token of a particular kind.",
  ["src/scanner/mod.rs"], [("simple_key_allowed", "src/scanner/mod.rs")], None, ["EventIter::next"])
p("P24", "No token is overtaken by a key or collection found later",
  "Every step of the scanner queues its tokens in the order of their positions, none behind the position the step starts from and none beyond the position it reaches; only the Key (and mapping start) of a pending implicit key is put further back, at that key's own position. The scanner hands out tokens only while no possible key is pending, or at the end of the stream, and reports every failed step. A step that stops to ask for more input queues nothing.",
  ["inputs", "histories"], "every input, key position and chunk boundary",
  "A token handed out too early is only wrong when a key turns up later, and only for some token histories and chunk boundaries.",
  ["src/scanner/mod.rs", "src/queue.rs"], [("scan_tokens, fetch_value", "src/scanner/mod.rs")], None, ["EventIter::next"])
open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
