#!/usr/bin/env python3
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
 "C01": "generated pattern ASTs and wild regex syntax against a reference DFA; exact product walk over all bytes per case",
 "C02": "generated combinator trees against reference automata; exact product walk per case",
 "C03": "dead verdict compared with reference liveness in every product state; metamorphic language identities",
 "C04": "pattern and tree pairs against reference inclusion and difference automata",
 "C05": "increasing fuel limits against the unlimited result and the reference; families needing exponential work must hit the limit",
 "C06": "reference prefix closure, exact product walk; operands with intersection/complement only bounded from both sides (known finding)",
 "C07": "configuration-set model of (A, set of started B runs with their age), walked in product with the engine",
 "C08": "hints checked in every product state against reference acceptance and liveness",
 "C09": "the same expressions compiled with and without compression (both builds), 1..256 distinguished bytes, several roots",
 "C10": "exported table walked in product with the regex it came from, before and after other queries",
 "C11": "reference JSON quoting by substitution on the reference model, exact product walk",
 "C12": "random, near-valid and unsupported pattern strings and requests; panics and accepted rejects are failures; builder re-verified afterwards",
 "C13": "random query histories over original and clones against the reference and against a fresh regex",
 "C14": "random builder sessions (build, parse, quote, compile, fail, clone, set flags); every reference re-verified at the end",
 "C15": "class set algebra on code points against compiled classes; UTF-8 acceptor in product with compiled default-mode patterns",
 "C16": "model-based operation sequences against a map-and-vector model, with clones",
 "C17": "random trees and failing mappers; recorded call sequence compared with a recursive reference",
 "C18": "child processes with a small stack build and query deep expressions; death of the child is a violation",
 "C19": "raw expression stores over alphabets 1..256 against reference quotients",
 "C20": "set operations against 256-bit reference sets for every alphabet size",
 "C21": "permuted, duplicated and re-nested constructions must be the identical expression; bounded state counts",
 "C22": "keyword lists with shared prefixes against a reference trie automaton",
 "C24": "random, shared, deep and wide expressions and trees printed under many limits, compared with the complete text",
 "C25": "random sessions replayed call by call on fresh instances, every answer and counter compared",
 "C26": "recorded traversals of random shared expression graphs against a recursive reference",
 "C27": "bound along random words against the lengths of the lookahead model",
 "C28": "repeated queries on regexes, clones and raw caches; cost, size and statistics must not move",
 "C23": "forced-prefix claims against the reference automaton",
}
checks = []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)["id"]
    checks.append({
        "property": p,
        "quick_cmd": "./check %s --tier quick" % p,
        "thorough_cmd": "./check %s --tier thorough" % p,
        "technique": "property-based testing: " + NOTES[p],
        "level": "exploration",
        "level_note": "random generated cases with a per-case exact or model oracle; holds for what was generated, not for all inputs",
    })
m = {"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": []}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
