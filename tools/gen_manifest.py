#!/usr/bin/env python3
# Writes MANIFEST.json: one check per property implemented (argument-less; edit CHECKS below).
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
W = "explicit-state model (deterministic automaton), W-method conformance replay on the real parser"
BASE = "Reference model independent of the generated code; every count in the evidence is measured. Assurance is exhaustive within the stated bounds; assumes the Go toolchain and standard library."
CHECKS = {
 "P01": (W + ", plus exhaustive value sweeps", "All reachable model states x 256 bytes x extra middle words x identification words, all digit strings, dates, lengths, structured-data strings within bounds. " + BASE),
 "P02": (W + ", plus exhaustive value sweeps", "Error text and column compared exactly on the whole conformance suite. " + BASE),
 "P03": (W + " in best effort mode", "Partial message and error compared exactly on the whole conformance suite. " + BASE),
 "P04": (W + " with compliant messages", "All UTF-8 automaton states; every byte sequence over the UTF-8 class boundaries up to length 4 (quick). " + BASE),
 "P07": (W + ", plus exhaustive value sweeps", "Both timestamp settings. " + BASE),
 "P08": (W + " in strict and best effort mode", "Verdict, column and partial content on the whole conformance suite. " + BASE),
 "P09": ("exhaustive enumeration of option configurations x calendar days x times on the real parser against a reference model", "Oracle for zone arithmetic is the Go standard library. " + BASE),
 "P05": ("explicit-state exploration of input histories on one real parser instance: all pairs (one input per ending state of the model automaton x probes), all triples of kinds, with frozen snapshots of returned messages", "Differential oracle: a new parser on the same input; reflection-based snapshots detect aliasing. " + BASE),
 "P06": ("stateless model checking of the real code: controlled scheduler with a switch point before every statement (build overlay) and modelled locks, all schedules within a preemption bound, plus happens-before race detection on the explored schedules", "2 threads with 2 preemptions and 3 threads with 1 (quick); more in the thorough tier. Sequentially consistent interleavings at statement granularity; data races are reported by the Go race detector on each schedule of bound 1. " + BASE),
 "P10": ("explicit-state exploration of all setter sequences up to a depth on the real builder against a reference state machine, plus exhaustive per-byte sweeps of every setter language", BASE),
 "P11": ("exhaustive enumeration of bounded messages and reachable builder states, rendering each and replaying the text on the real parser against a reference renderer", BASE),
 "P12": ("stateless model checking of the real code: controlled scheduler with a switch point before every statement (build overlay), all schedules within a preemption bound, plus happens-before race detection on the explored schedules", "2 threads with 2 preemptions and 3 threads with 1 (quick); more in the thorough tier. " + BASE),
 "P13": ("exhaustive enumeration of all 256 priorities x both formats x call orders of the label accessors against the standard tables", BASE),
 "P14": ("exhaustive enumeration of bounded frame sequences x all read splits replayed on the real parser against a reference framing model", BASE),
 "P15": ("exhaustive fault injection: every truncation offset, read failure, departure byte and declared length of bounded streams, replayed on the real parser against a reference framing model", BASE),
 "P16": ("exhaustive enumeration of bounded line sequences x all read splits replayed on the real parser against a reference framing model", BASE),
 "P17": ("exhaustive fault injection: every truncation offset and read failure of bounded streams x read splits, replayed on the real parser against a reference framing model", BASE),
 "P18": ("explicit-state exploration of all histories of streams (every kind of ending) on one real parser instance, differential against a new instance, with frozen snapshots", BASE),
 "P19": ("exhaustive enumeration of streams x read splits with monitors on the interleaving of reads and listener calls of the real parser", BASE),
 "P20": ("exhaustive enumeration of option subsets, permutations and interleavings of differently configured instances, probing each constructed real parser", BASE),
 "P21": ("exhaustive enumeration of strings and integers within bounds on the real conversions against a reference", BASE),
 "P22": ("stateless model checking of the real code: controlled scheduler with a switch point before every statement (build overlay), all schedules within a preemption bound, happens-before race detection, all orders of the reads of two parsers, and nested use at every read and listener call", "2 threads with 1 preemption and, for short streams, 2 (quick); more in the thorough tier; code of the standard library and of ragel-machinery is atomic. " + BASE),
 "P23": ("exhaustive enumeration of strings, position sets, slice capacities and numbers within bounds on the real helpers against a reference", BASE),
 "P24": (W + ", with histories of parses on one real machine", "Every model state x 256 bytes after an accepted and after a rejected input, and all sequences of three inputs of the corpus. " + BASE),
 "P25": ("exhaustive enumeration of bounded sequences of built messages x framings x read splits on the real builder and parsers against the model of the message", BASE),
 "P26": ("exhaustive enumeration of bounded streams x read splits on the real scanner against a reference scanner", "All strings over the significant bytes up to a length, pairs of bytes at every position of framed streams, sizes and maxima. " + BASE),
 "P27": (W + ", fault injection on streams, exhaustive sweeps of builder arguments, hand-made messages and option values, with monitors for panics, hangs and empty answers", BASE),
 "P28": ("explicit-state model (deterministic automaton): every loop of the model pumped to megabytes and replayed on the real parser, streams, builder calls likewise, with a time monitor", "Time limits leave about two orders of magnitude on both sides between linear and quadratic cost. " + BASE),
}
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "checks": [{"property": p, "quick_cmd": "./run.sh %s quick" % p, "thorough_cmd": "./run.sh %s thorough" % p, "evidence_file": "evidence/%s.json" % p,
             "technique": CHECKS[p][0], "level": "model_checking", "level_note": CHECKS[p][1]} for p in props if p in CHECKS],
 "not_applicable": [{"property": p, "reason": "planned: the check is not built yet"} for p in props if p not in CHECKS],
}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
