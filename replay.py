#!/usr/bin/env python3
"""replay.py <violation.json>: rebuilds the harness against /repo natively (sanitizers) and runs the recorded counterexample.
Exits 1 when the violation shows again, 0 when it does not."""
import sys, json, os, shutil
import vfdriver as D
def main():
    c = json.load(open(sys.argv[1]))
    run = D.Run(c["property"], "quick", 1); run.exe = D.build_engine()
    spec = next((s for s in D.J.JOBS[c["property"]] if s["entry"] == c["entry"]), {})
    j = dict(idx=0, src=os.path.join(D.ROOT, c["harness"]), entry=c["entry"], std=c["std"], params=c["params"], defs=spec.get("defs", []), flags=spec.get("flags", []), time=200, samples=0, native=spec.get("native", True), known=None)
    try:
        if c["schedule"] or not j["native"]:
            r = run.engine(j); bad = bool(r["errors"])
            for e in r["errors"]: print("symbolic execution: %s: %s at %s schedule %s" % (e["kind"], e["msg"], e["loc"], e["schedule"]))
        else:
            bad, notes = run.confirm(j, dict(kind=c["kind"], values=c["values"], schedule=c["schedule"]))
            for n in notes: print(n)
    finally: shutil.rmtree(run.work, ignore_errors=True)
    print("violation reproduced" if bad else "not reproduced"); return 1 if bad else 0
sys.exit(main())
