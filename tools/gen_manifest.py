#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of claimed checks."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
PARSER = "abstract interpretation of the event parser over MIR as a pushdown system, explored to a fixpoint over all parser configurations for an arbitrary token source"
SCANNER = "abstract interpretation of one scanner step over MIR, from an unknown scanner state and over an exhaustive partition of the text a token can start with"
CHECKS = {
 "P01": (PARSER, "proof", "every event of every configuration is matched against the event grammar carried beside the parser's own stack; unbounded nesting is summarised by what can lie below each stack entry"),
 "P02": (PARSER, "proof", "the kind of every node event is compared with the position the event grammar is in"),
 "P03": (PARSER, "proof", "the graph of configurations is searched for cycles that consume nothing; std loops and the scanner's own loops are outside this check"),
 "P04": (PARSER, "proof", "payloads are followed from token to event as symbolic values; every event must hold the payload of exactly its own tokens"),
 "P05": (PARSER, "proof", "a reference automaton of the token productions runs in lock step with the parser on every token; any difference in event, consumption or acceptance is reported"),
 "P17": (PARSER, "proof", "the directive maps are followed as symbolic maps through scanning, reporting, activation and lookup; HashMap itself is trusted"),
 "P09": ("ownership analysis: abstract interpretation of every operation on a shared owning reader, and a scan of all unsafe operations over MIR", "proof", "buffers whose text is handed out must be held unmodified on every exit, across every nested operation and while foreign code runs"),
 "P10": ("compile-fail witnesses with compiling twins, and enumeration of the public API from the type-checked crate", "proof", "rustc's own rules decide each witness; the enumeration covers every function of the crate"),
 "P11": ("abstract interpretation of every error conversion and of the classifier over MIR", "proof", "every From impl between failure types reachable from the public API is run abstractly on every failure; the category reported must be the origin's"),
 "P12": ("path-sensitive dataflow over MIR from every place a failure enters a function", "proof", "each failure is followed to the returned value, another function that answers for it, or a panic; requests for more input are not failures; bytes held back by the owning reader are decided by abstract interpretation"),
 "P14": ("abstract interpretation of the queue's operations and of the comparisons its heap makes over MIR", "proof", "Queue and its comparison are analysed for all marks and insertion numbers; BinaryHeap is trusted to be a correct heap for a total order"),
 "P18": ("abstract interpretation of both escape decoders over MIR on an exhaustive partition of their inputs", "proof", "every byte after the backslash, every digit string by position, every octet sequence by class of its lead; the written characters are compared with the sum of weighted digit values as symbolic terms; callers are outside this check"),
 "P13": (SCANNER, "proof", "a typestate of the indentation stack is judged at every pop, push, queued token and exit; that levels and the current indentation agree at entry is the induction hypothesis, checked at every exit"),
 "P19": (SCANNER, "proof", "the token queued, or the sub-scanner entered and its mode, is compared with the indicator table for every class of text; the sub-scanners themselves are summarised"),
 "P20": (SCANNER, "proof", "the saved key is a symbolic position; its use, loss, expiry and requirement are judged at every exit; the limit counts bytes as the scanner does"),
 "P23": (SCANNER, "proof", "acceptance and the permission left behind are judged at every exit for an unknown permission at entry"),
 "P24": (SCANNER, "proof", "positions of queued tokens are symbolic; the entry point is analysed with the step abstracted to any effect; the queue's own order is P14"),
 "P16": (SCANNER, "proof", "the text consumed and the change of the stored position are both symbolic and proved equal at every exit of a step; the sub-scanners' own counts are assumed; resumption is proved at the entry point for any behaviour of the step"),
 "P15": ("call-graph cycle detection over monomorphic MIR", "proof", "every call, drop, reified function and trait-object call reachable from the public API; std is trusted not to call back except through those"),
}
NA = {
 "P06": "no panic for any input: the slice bounds in the scalar scanners rest on relations between several cursors of one buffer that are carried around unbounded loops; the abstract interpreter used here does not find those invariants, so it would raise alarms on correct code (tried, see DESIGN.md)",
 "P07": "independence of where the input is cut is a relation between two whole runs over arbitrarily long text, through state that accumulates in the unbounded loops of the scalar scanners; the parts of it that have a static argument in reach are claimed as P09, P11, P12, P16 and P24",
 "P08": "that a deferred scalar evaluates to what scanning it at once would have given compares two different loops over arbitrarily long text; no static argument in reach relates them",
 "P21": "the folded text of a scalar is a function of arbitrarily long byte strings; a static argument would amount to proving the scanners functionally correct",
 "P22": "a cost bound on loops over unbounded input; the loop bounds are relations between runtime quantities no static analysis here can bound",
}
DEFAULT_NA = "check not built yet"
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": [{"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i, "technique": t, "level": l, "level_note": n}
                for i in ids if i in CHECKS for (t, l, n) in [CHECKS[i]]],
     "not_applicable": [{"property": i, "reason": NA.get(i, DEFAULT_NA)} for i in ids if i not in CHECKS]}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
