"""Unary adder"""
from sim.world import shrink_world as shrink, worldprop  # noqa: F401
from sim.laws import law

ID = "C05"
QUICK = 2500
RULE = "Seeded worlds of 1-3 live adders with seeded configuration, streams, link faults, clock interleaving and disturbances."
REAL = ["kernel/add.py FSUAdd"]
STUB = ["random draws during construction (simulated entropy)", "bit producers (explicit waveforms with link faults)", "clock (seeded scheduler)"]
PROBES = ["saturated", "mode:unipolar", "mode:bipolar"]
BENCHES = ["add"]
gen, run = worldprop(BENCHES, law)
