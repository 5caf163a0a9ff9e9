"""Sign and magnitude"""
from sim.world import shrink_world as shrink, worldprop  # noqa: F401
from sim.laws import law

ID = "C13"
QUICK = 2000
RULE = "Seeded worlds of 1-3 live sign/magnitude units with seeded configuration, streams, link faults, clock interleaving and disturbances."
REAL = ["kernel/signabs.py"]
STUB = ["random draws during construction (simulated entropy)", "bit producers (explicit waveforms with link faults)", "clock (seeded scheduler)"]
PROBES = ["sign-settled"]
BENCHES = ["signabs"]
gen, run = worldprop(BENCHES, law)
