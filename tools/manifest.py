#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run from /verif after adding a check)."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENUM = "stateless exhaustive exploration of the real code against a reference model"
T = {
 "C01": ("all call histories up to a depth on the real Imports, against a reference registry", None),
 "C02": ("all call histories up to a depth on the real Imports, checked after every call", None),
 "C03": ("all generated types/signatures up to a depth x import states, against a structural model", None),
 "C04": ("all generated types up to a depth x source positions, parsed back with go/parser and compared with the model", None),
 "C05": ("all generated go/types types and objects up to a depth, compared with the model", None),
 "C06": ("all generated reflect types up to a depth, compared with the model", None),
 "C07": ("all files with up to the bound of references in any of 56 places, type-checked with go/types against the intended objects", None),
 "C08": ("all files up to a deviation bound from a default file, parsed back and compared with the mirror model", None),
 "C09": ("all argument kinds x import situations x verbs and positions, and all code block histories up to a depth, against a reference formatter", None),
 "C10": ("all template data shapes up to a depth around every kind of reference, against a parallel expected value, in the unsafe and the purego build", None),
 "C11": ("all histories of renderings, failures and queries up to a depth over files that share elements, against fresh renderings", None),
 "C12": ("all map iteration orders (the runtime's random offsets are choices of the explorer) and insertion orders, against one reference output", None),
 "C13": ("all failure points (open, every write outcome, close) of every file of a batch, against a reference model", None),
 "C14": ("all combinations of roots, GOPATH values, import paths and previous file system contents in a scratch directory, trees compared exactly", None),
 "C15": ("all names up to a length over an alphabet with one character per class, plus every Unicode first character", None),
 "C16": ("all histories of building, adding, renaming and asking up to a depth, against a reference model", None),
 "C17": ("all generated types and elements up to a depth x all later mutations, against the model", None),
 "C18": ("all interleavings up to a preemption bound, at every statement of the library, of goroutines that render files; separate free-running race detector run", None),
 "C20": ("all import paths, names and sequences of them up to a length, against the documented values and texts", None),
 "C21": ("all sequences of builder calls on two elements up to a depth, against a reference model", None),
 "C19": ("all calls of the constructors over valid, boundary and invalid argument values, against the documented preconditions", None),
}
NOTE = "Every execution within the stated bounds is run on the real code and compared with an independent reference; nothing is claimed beyond the bounds and the value alphabets. Trusted: the reference model, the Go toolchain and its go/ast, go/parser and go/types packages."
done = subprocess.run(["grep", "-oh", 'ID: "C[0-9]*"'] + [os.path.join(here, "harness", f) for f in sorted(os.listdir(here + "/harness")) if f.endswith(".go")], capture_output=True, text=True).stdout
have = sorted(set(l.split('"')[1] for l in done.split("\n") if l))
checks = []
for i in have:
    checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
      "technique": "model checking: " + T[i][0], "level": "fault_enumeration" if i in ("C13", "C14") else "model_checking", "level_note": T[i][1] or NOTE})
na = [{"property": i, "reason": "check under construction"} for i in sorted(T) if i not in have]
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
  "notes": "Harnesses are in harness/, the explorer in harness/engine.go; DESIGN.md describes them. No hooks are needed in /repo: C18 and C12 instrument copies made at check time (build overlays)."}, open(here + "/MANIFEST.json", "w"), indent=1)
