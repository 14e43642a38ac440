#!/usr/bin/env python3
# Writes MANIFEST.json.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M5 = "reference parser written from RFC 5424 (harness/ref5424.go)"
M3 = "reference parser written from RFC 3164 and the documentation (harness/ref3164.go)"
T = {
 "C01": ("generated inputs against a reference acceptor", M5 + "; exhaustive over one byte edits of a set of base messages, field lengths, calendar days, numbers"),
 "C02": ("generated inputs against a reference parser", M5 + "; all fields compared"),
 "C03": ("generated structured data against a reference parser, and an inverse escaping", M5 + " and an independent encoder"),
 "C04": ("enumerated and random UTF-8, differential between the two modes", "unicode/utf8 of the standard library decides validity; the reference parser the rest"),
 "C05": ("generated bad inputs against a reference parser giving column and part", M5),
 "C06": ("generated bad inputs against a reference parser giving the partial message", M5 + "; prefix relation between input and partial message"),
 "C07": ("histories of calls, metamorphic: fresh parser against used parser", "outcomes are compared with those of a new parser; buffers are overwritten, results mutated"),
 "C08": ("random concurrent histories under the race detector, linear comparison with a sequential run", "finds races on the schedules that happened; the race detector reports any unsynchronized pair of accesses that was executed"),
 "C09": ("generated inputs against a reference acceptor", M3),
 "C10": ("generated inputs against a reference parser and a losslessness invariant", M3),
 "C11": ("enumerated timestamps and options against a reference", M3 + "; time.Date of the standard library for the calendar"),
 "C12": ("generated bad inputs against a reference parser", M3),
 "C13": ("random sequences of setter calls against a reference model", "model of the message state in harness/props_builder.go, built on the RFC 5424 reference acceptor"),
 "C14": ("random sequences of setter calls against a reference model", "model of the structured data in harness/props_builder.go"),
 "C15": ("round trip: build, serialize, parse with the reference and with the library", "reference parser and model of the message state"),
 "C16": ("round trip and idempotence: parse, serialize, parse", M5 + "; an independent canonical serializer"),
 "C17": ("random concurrent histories under the race detector, comparison with a sequential run", "finds races on the schedules that happened"),
 "C18": ("generated streams against a model of the framing", "model of octet counting in harness/stream.go; the library's message parser gives the expected outcome of each frame"),
 "C19": ("enumerated and random broken streams against a model of the framing", "model of octet counting in harness/stream.go"),
 "C20": ("enumerated lengths around limits against a model of the framing", "model of octet counting in harness/stream.go"),
 "C21": ("generated streams against a model of the framing", "model of the trailer framing in harness/stream.go; the library's message parser gives the expected outcome of each message"),
 "C22": ("streams cut at every place, against a model of the framing", "model of the trailer framing in harness/stream.go"),
 "C23": ("metamorphic: one stream read in two ways, with injected short and empty reads", "results of one way of reading are compared with those of another"),
 "C24": ("histories of streams on shared parsers, against new parsers", "results are compared with those of a new parser and of the model"),
 "C25": ("exhaustive over codes, random inputs, against tables of the RFCs", "names as given by RFC 5427 and documented by the library"),
 "C26": ("exhaustive over short texts, random texts, round trip", "a direct definition of the accepted names"),
 "C27": ("fuzzing: structured and byte level random inputs, invariants on outcomes, injected read failures", "termination is judged by CPU time and memory of single cases, confirmed by a second run; no absence of slow inputs is shown beyond the sizes tried"),
 "C28": ("metamorphic: permuted and irrelevant options", "the canonical order of the same options is the reference"),
 "C30": ("random concurrent histories under the race detector, comparison with a sequential run", "finds races on the schedules that happened; the race detector reports any unsynchronized pair of accesses that was executed"),
 "C31": ("round trip over parts: build, serialize, frame, parse the stream, and again", "the message sent is the oracle"),
 "C32": ("invariant over long generated histories: memory in use and goroutines after each round", "a leak of less than 33 bytes per message is not seen, nor one that stops growing; allocations of an input against those of one four times as large"),
 "C33": ("enumerated and random streams against a reference tokenizer", "judged up to the first token out of place"),
 "C34": ("enumerated and random numbers, byte strings and positions against direct definitions", "the definitions are written anew in harness/props_helpers.go"),
 "C35": ("histories of calls and reads under a clock which the check moves, against the outcome at rest", "the clock is that of the bubbles of testing/synctest; for CurrentYear the reference is the same parser with the year given as an option"),
 "C36": ("invariant over the state of the process before and after each generated use", "what is written is seen as growth of a file put in the place of descriptors 1 and 2; effects elsewhere than in what is listed in the rule are not seen"),
 "C37": ("random and systematic mixtures of uses under the race detector, comparison with the same alone", "finds races on the schedules that happened; the race detector reports any unsynchronized pair of accesses that was executed"),
 "C29": ("a recording reader notes how many results were delivered at each read", "model of both framings in harness/stream.go"),
}
checks = []
for id in sorted(T):
    tech, note = T[id]
    checks.append({
        "property": id,
        "quick_cmd": f"./check.sh {id} quick",
        "thorough_cmd": f"./check.sh {id} thorough",
        "evidence_file": f"evidence/{id}.json",
        "technique": "property-based testing: " + tech,
        "level": "exploration",
        "level_note": "No violation among the cases counted in the evidence file; absence elsewhere is not shown. Trusts: " + note + "." if not note.startswith(("finds", "outcomes", "results", "termination", "a ", "the ")) else "No violation among the cases counted in the evidence file; absence elsewhere is not shown. " + note[0].upper() + note[1:] + ".",
    })
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
assert props == sorted(T), (props, sorted(T))
json.dump({"version": 1, "setup_cmd": "./check.sh setup", "checks": checks, "not_applicable": [],
  "notes": "No hooks: the checks use the public API only. Known findings: /verif/KNOWN_FINDINGS (only fixed ones). Replay a case: ./check.sh replay FILE."},
  open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
