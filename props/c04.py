"""Skewed synchroniser"""
from sim.world import shrink_world as shrink, worldprop  # noqa: F401
from sim.laws import law

ID = "C04"
QUICK = 2000
RULE = "Seeded worlds of 1-3 live synchronisers with seeded configuration, streams, link faults, clock interleaving and disturbances."
REAL = ["stream/shuffle.py SkewedSync"]
STUB = ["random draws during construction (simulated entropy)", "bit producers (explicit waveforms with link faults)", "clock (seeded scheduler)"]
PROBES = ["bench:skewsync", "store-full"]
BENCHES = ["skewsync"]
gen, run = worldprop(BENCHES, law)
