#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the table below (only listed ids are claimed)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = "model_checking"; FE = "fault_enumeration"
T_LOCK = "explicit-state model checking: exhaustive bounded enumeration of operation sequences, reference model replayed in lock-step on the real code"
T_IN = "explicit-state model checking: exhaustive enumeration of a finite input space, every case replayed on the real code against a reference model"
T_FAULT = "model checking by exhaustive fault injection: every I/O call of every history x every fault kind, on the real code"
N = "Complete within the bounds listed per section in the evidence file; every model trace is executed on the real code through its public API. Beyond the bounds only the listed witnesses are covered. "
C = {
 "C01": (MC, T_IN, "All integer frequencies and a fractional grid, exact integer phase reference; long runs are witnesses."),
 "C02": (MC, T_LOCK, "All retune histories over a frequency/length alphabet; exact integer phase reference."),
 "C03": (MC, T_IN, "All 2^24 high parts of the random word with two low bytes; the random source is replaced by a scripted one (vendored rand), so the quality of rand itself is trusted."),
 "C04": (MC, T_LOCK, "Every cut point of every short history per kind and configuration; three known findings (shared sound handles) are listed in known_findings.txt."),
 "C05": (MC, "model checking: all interleavings of the calls of two instances, every ordered pair of kinds, on the real code", "Call-level interleavings (the API takes &mut self, so calls are the atomic steps); thread moves are enumerated as call-to-thread assignments."),
 "C06": (MC, T_LOCK, "All short tracks x speed histories; long tracks are witnesses."),
 "C07": (MC, T_LOCK, "All loop points on short tracks x speed histories."),
 "C08": (MC, T_IN, "All code values and all short track sets against an independent encoder."),
 "C09": (FE, T_FAULT, "Every write/flush/seek-free call position x fault kind, single and double faults."),
 "C10": (FE, T_FAULT, "Every truncation point, every header byte value, every read-splitting and fault position of the listed files."),
 "C11": (MC, T_IN, "All codes of every format; every f32 in [-1,1] is visited in both tiers."),
 "C12": (MC, T_IN, "All tuples over a value alphabet including extremes."),
 "C13": (MC, T_IN, "Dense grid over the pan range plus every boundary neighbour."),
 "C14": (MC, T_LOCK, "All parameter tuples x every release time (and repeated releases)."),
 "C15": (MC, T_LOCK, "All short input words x all short lengths; long lengths are witnesses."),
 "C16": (MC, T_LOCK, "All short input words, parameter grid, setter histories; reference recurrence in f64."),
 "C17": (MC, T_LOCK, "All short input words, parameter grid, setter histories; reference recurrence in f64."),
 "C18": (MC, T_LOCK, "All short tap lists x all short input words, exact dyadic arithmetic."),
 "C19": (MC, T_LOCK, "All short input words x frequency pairs."),
 "C20": (MC, T_LOCK, "All call sequences up to a depth with spy generators/modifiers."),
 "C21": (MC, T_LOCK, "All call sequences up to a depth with spy blocks."),
 "C22": (MC, T_LOCK, "All toggle/process/register sequences up to a depth."),
 "C23": (MC, "explicit-state model checking: every acyclic graph up to a size and every construction history, executed on the real code against a dataflow model", "All DAGs with at most 4 inner blocks; larger graphs are witnesses."),
 "C24": (MC, "explicit-state model checking: every digraph up to a size, executed on the real code against a delayed-edge dataflow model", "All digraphs with at most 3 inner blocks; larger graphs are witnesses."),
 "C25": (MC, T_LOCK, "All add/remove/process/set histories up to a depth; handle retention is a known finding (known_findings.txt)."),
 "C26": (MC, T_IN, "All short tracks over a value alphabet."),
 "C27": (MC, T_IN, "All sample counts up to a bound; grids of durations and levels."),
 "C28": (MC, T_IN, "All tuples over a value alphabet, exact dyadic arithmetic."),
 "C29": (MC, T_LOCK, "All read-size sequences over all short payloads."),
 "C30": (MC, "model checking of the line-wrapping automaton: every (column, digit count) transition, replayed on the real program", "The real binary is built from /repo and run in a scratch directory."),
 "C31": (MC, T_IN, "All header combinations of a matrix of formats, all short code words."),
 "C32": (MC, T_LOCK, "All channel histories up to a depth over real library sounds, every composition of a rendering into calls x every set of 8 kinds of sound; the reference is composed by hand from separate instances of the parts."),
 "C33": (MC, T_IN, "All short input words x 77 settings against the convolution with the measured impulse response; long signals are witnesses."),
 "C34": (MC, T_IN, "All whole-sample durations up to a bound, in every consumer of durations."),
 "C35": (MC, T_IN, "Every code of every depth re-saved and played; byte equality with the independently encoded file, no tolerance."),
 "C36": (MC, T_LOCK, "All sequences of settings x all ways of reaching them; the history with the fewest setter calls is the reference."),
 "C37": (MC, "explicit-state model checking: exhaustive bounded enumeration of operation patterns, the bytes held by the real code after few and after many rounds compared", "All short patterns of operations per kind; growth is judged between 64 and 2048 rounds with 2 KB of slack; tables made once per process are not counted."),
 "C38": (MC, "explicit-state model checking: exhaustive enumeration of bounded sequences of setters and processing calls over an alphabet of extreme values, executed on the real code under a watchdog", "All pairs of setters and processing calls over 24 extreme values and 10 extreme samples; sizes that fit in memory, one handle per object."),
 "C39": (MC, "explicit-state model checking: every structure (generator x chain of modifiers x arrangement) up to a bound, all arrangements executed in lock-step on the real code and compared bit by bit", "Chains of up to 3 modifiers of 12 kinds (longer ones over a smaller alphabet), 8 generators; what the parts themselves yield is decided by their own properties."),
}
CLAIMED = [l.strip() for l in open(os.path.join(ROOT, "tools/claimed.txt")) if l.strip()]
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = [{"property": p, "quick_cmd": f"./check.sh {p} --tier quick", "thorough_cmd": f"./check.sh {p} --tier thorough",
           "technique": C[p][1], "level": C[p][0], "level_note": N + C[p][2]} for p in props if p in CLAIMED]
m = {"version": 1, "setup_cmd": "./check.sh --build", "checks": checks,
     "not_applicable": [{"property": p, "reason": "check not built yet"} for p in props if p not in CLAIMED],
     "notes": "No hooks in /repo: everything is observed through the public API. Repairs are the fix: commits listed in known_findings.txt."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1); open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
