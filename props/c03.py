"""Polarity converters"""
from sim.world import shrink_world as shrink, worldprop  # noqa: F401
from sim.laws import law

ID = "C03"
QUICK = 2000
RULE = "Seeded worlds of 1-3 live polarity converters with seeded configuration, streams, link faults, clock interleaving and disturbances."
REAL = ["stream/shuffle.py Bi2Uni, Uni2Bi"]
STUB = ["random draws during construction (simulated entropy)", "bit producers (explicit waveforms with link faults)", "clock (seeded scheduler)"]
PROBES = ["bench:bi2uni", "bench:uni2bi", "saturated"]
BENCHES = ["bi2uni", "uni2bi"]
gen, run = worldprop(BENCHES, law)
