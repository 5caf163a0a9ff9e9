"""Streaming square root"""
from sim.world import shrink_world as shrink, worldprop  # noqa: F401
from sim.laws import law

ID = "C11"
QUICK = 1600
RULE = "Seeded worlds of 1-3 live square roots with seeded configuration, streams, link faults, clock interleaving and disturbances."
REAL = ["kernel/sqrt.py", "kernel/jkff.py", "kernel/div.py", "kernel/add.py", "kernel/shiftreg.py", "stream/shuffle.py"]
STUB = ["random draws during construction (simulated entropy)", "bit producers (explicit waveforms with link faults)", "clock (seeded scheduler)"]
PROBES = ["mode:unipolar", "mode:bipolar"]
BENCHES = ["sqrt"]
gen, run = worldprop(BENCHES, law)
