"""Registers"""
from sim.world import shrink_world as shrink, worldprop  # noqa: F401
from sim.laws import law

ID = "C12"
QUICK = 2000
RULE = "Seeded worlds of 1-3 live registers with seeded configuration, streams, link faults, clock interleaving and disturbances."
REAL = ["kernel/shiftreg.py", "kernel/jkff.py"]
STUB = ["random draws during construction (simulated entropy)", "bit producers (explicit waveforms with link faults)", "clock (seeded scheduler)"]
PROBES = ["bench:shiftreg", "bench:jkff"]
BENCHES = ["shiftreg", "shiftreg", "jkff"]
gen, run = worldprop(BENCHES, law)
