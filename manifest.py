#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the property modules that exist."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
NOTES = {
    "default": "Seeded search over schedules, streams, faults and disturbances on the real code; per-event comparison with an "
               "independent integer reference model. A clean batch is evidence, not proof. Trusts torch/numpy arithmetic and the model.",
}
for _c in ("C37", "C38"):
    NOTES[_c] = ("Seeded search over clock, reset, input-glitch, load and process-order schedules on the SystemVerilog sources, executed by a two-state "
                 "simulator written for this (sim/rtl.py: no HDL simulator is installed). A clean batch is evidence, not proof. Trusts that simulator, the reference "
                 "machines and torch; unknown (X) values, analogue timing and synthesis are outside.")
NA = {
    "C34": "RawScale is a pure function of one tensor: no schedule, state, randomness, time or fault for a simulator to decide.",
    "C35": "Rounding is a pure function of its argument; nothing nondeterministic or stateful for a simulator to decide "
           "(its use inside the fixed-point recurrent cell is part of C15).",
    "C36": "Shape helpers are pure arithmetic on integers; no schedule, state, randomness, time or fault is involved.",
}


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        pid = p["id"]
        f = os.path.join(HERE, "props", pid.lower() + ".py")
        if os.path.exists(f) and pid not in NA:
            note = NOTES.get(pid, NOTES["default"])
            checks.append(dict(property=pid, quick_cmd="%s check.py %s" % (PY, pid),
                               thorough_cmd="VERIF_TIER=thorough %s check.py %s --tier thorough" % (PY, pid),
                               technique="deterministic simulation with fault injection (seeded schedules, faults and entropy; reference model and history oracles)",
                               level="exploration", level_note=note))
        else:
            na.append(dict(property=pid, reason=NA.get(pid, "check not built yet")))
    m = dict(version=1, setup_cmd="%s -c 'import torch, numpy, pylfsr'" % PY, checks=checks, not_applicable=na,
             notes="No hooks in /repo: all seams (constructors, inputs, process-wide random generators, pickling) already exist. "
                   "Property modules: props/, simulator: sim/, driver: check.py.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()
