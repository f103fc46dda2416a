#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
root = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(root + "/properties.jsonl") if l.strip()]
NA = {
    "C17": "Rendering an error to text is a pure function of one value: no schedule, source, fault, clock or history can influence it, so there is nothing for a simulator to decide; generating error values at random would be input generation in simulator vocabulary.",
    "C18": "Turning a container form into its token sequence is a pure function of the argument, evaluated without any stream, session or callback; no simulated execution can change it. (The simulated parsers of C08 do use every token container form, so a form that loses tokens is visible there.)",

}
COMMON = ("Seeded search, not proof: a clean batch is evidence for the sampled runs (bounded grammars, inputs of some dozen tokens, 1-4 sessions). "
          "Real: all of the library from source iterator to result. Simulated: sources, links, clock, callbacks, scheduler of sessions, token and heap accounting. "
          "Trusts the reference models in /verif/sim. ")
NOTE = {
 "C01": "Every observable of the stream API is compared with a vector-and-index model after each operation, under re-entrant switches between streams and dropped saved positions.",
 "C02": "Source demand is compared with the reference model's demand at every poll; a causal peer that sends only after a result detects read-ahead as deadlock.",
 "C03": "Sources are armed to resume after their end; any poll after the end, and any cursor beyond it, is a violation.",
 "C04": "Unwinding injected at every seam (poll, predicate, mapping, factory, scanner) at seeded instants; afterwards the session goes on and is compared with the models again.",
 "C05": "Live tokens and heap bytes are counted at every poll and after every operation and compared with the window from the oldest restorable position; long sessions of thousands of tokens are part of the mix.",
 "C06": "Three trackers, among them one whose locations hash the sequence of tokens seen, are compared with advancing a fresh tracker over the true tokens.",
 "C07": "Probe parsers placed at random depths check the cursor around every nested parse of the real parser.",
 "C08": "Results are compared with an independent recursive-descent reference interpreter of the same grammar.",
 "C09": "Outcome class, error list and order are compared with the reference interpreter, with recovery on and off.",
 "C10": "Strategies composed at random from all steps are interpreted by the reference model.",
 "C11": "Failure index, errors and merged expectations are compared with the reference model.",
 "C12": "The scan is compared with an independent model of delimiter matching (stack of open delimiters) on damaged nested inputs.",
 "C13": "Each session is run alone, shared, interleaved, re-entered and repeated; transcripts must be identical.",
 "C14": "Results and tail are checked to tile the source's own token sequence.",
 "C15": "A simulated lossy link with retransmitting sender; records accepted are compared with an independent segmentation of what arrived; liveness as bounded retransmissions after faults stop.",
 "C19": "Tasks compete to define declared parsers while sessions already parse with them, in every order the scheduler comes up with, also from within sources, callbacks and the closure form; undefined uses and second definitions are the injected faults, and what the sessions then get is compared with properly made definitions.",
 "C20": "The sequence of callback invocations of each operation, with their arguments, is compared with the one the reference interpreter makes, while other sessions are switched to within the callbacks.",
 "C16": "The same input is run through each entry point in its own simulated session and the results compared.",
}
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"bash check.sh {i} quick",
        "thorough_cmd": f"bash check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "deterministic simulation with fault injection: seeded search over sessions, schedules and faults against reference models",
        "level": "exploration",
        "level_note": COMMON + NOTE[i],
    })
m = {
    "version": 1,
    "setup_cmd": "bash build.sh",
    "checks": checks,
    "not_applicable": [{"property": i, "reason": r} for i, r in NA.items()],
    "notes": "No hooks in /repo: the library takes its source, callbacks, location tracker and error type from the caller, so every seam the simulator needs is public. Replay a violation with: bash replay.sh FILE.",
}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
