"""MANIFEST.json from the properties and the scenarios that exist."""

import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

NA = {
    "N01": "Pure function of the parameters and the point: no schedule, clock, I/O, fault or history for a simulator to decide; seeded generation of inputs alone would be property-based testing, another family of technique.",
    "N02": "Approximation quality of a pure function of its inputs; what depends on history about conversions is H07.",
    "N03": "Pure function of a table of numbers; nothing to schedule and no fault to inject.",
    "N04": "Algebraic identities of pure functions of their inputs; what depends on history or on splitting the data is M01-M03.",
    "N05": "Numerical accuracy of pure functions of their inputs; what depends on batching and history is H04 and H05.",
    "N06": "Pure function of the constructor's arguments; atomicity of failing operations is H03.",
}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        pid = p["id"]
        if pid in NA:
            na.append(dict(property=pid, reason=NA[pid]))
            continue
        if not os.path.exists(os.path.join(HERE, "sim", "props", pid.lower() + ".py")):
            na.append(dict(property=pid, reason="Its check has not been built yet; deterministic simulation applies (see DESIGN.md)."))
            continue
        s = importlib.import_module("sim.props." + pid.lower()).Scenario()
        note = "Seeded search, not a proof: " + s.rule + ". Real: " + s.real + ". Stub: " + s.stub + "."
        if s.assumptions:
            note += " Assumes: " + "; ".join(s.assumptions) + "."
        checks.append(
            dict(
                property=pid, quick_cmd=f"./check {pid}", thorough_cmd=f"./check {pid} --tier thorough", evidence_file=f"evidence/{pid}.json",
                technique="deterministic simulation with fault injection: " + getattr(s, "technique", "seeded histories"), level=s.level, level_note=note,
            )
        )
    doc = dict(version=1, setup_cmd="./check --setup", checks=checks, not_applicable=na,
               notes="No hooks in /repo: every seam lies outside it (LD_PRELOAD shim below all file I/O, sys.settrace scheduler for threads and asynchronous exceptions, an MPI stand-in behind h5py, numpy's generators).")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")
    print(len(checks), "checks;", "not applicable:", [n["property"] for n in na])


main()
