"""Streaming division"""
from sim.world import shrink_world as shrink, worldprop  # noqa: F401
from sim.laws import law

ID = "C10"
QUICK = 1600
RULE = "Seeded worlds of 1-3 live dividers with seeded configuration, streams, link faults, clock interleaving and disturbances."
REAL = ["kernel/div.py", "kernel/signabs.py", "kernel/shiftreg.py", "stream/shuffle.py", "stream/gen.py RNG"]
STUB = ["random draws during construction (simulated entropy)", "bit producers (explicit waveforms with link faults)", "clock (seeded scheduler)"]
PROBES = ["bench:cordiv", "bench:div", "mode:unipolar", "mode:bipolar"]
BENCHES = ["cordiv", "div", "div"]
gen, run = worldprop(BENCHES, law)
