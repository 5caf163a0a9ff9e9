"""Streaming fully connected layer"""
from sim.world import shrink_world as shrink, worldprop  # noqa: F401
from sim.laws import law

ID = "C07"
QUICK = 2000
RULE = "Seeded worlds of 1-3 live layers with seeded configuration, streams, link faults, clock interleaving and disturbances."
REAL = ["kernel/linear.py FSULinear, FSULinearPC", "kernel/add.py FSUAdd", "stream/gen.py"]
STUB = ["random draws during construction (simulated entropy)", "bit producers (explicit waveforms with link faults)", "clock (seeded scheduler)"]
PROBES = ["bench:linear", "bench:linearpc", "saturated"]
BENCHES = ["linear", "linearpc", "linear"]
gen, run = worldprop(BENCHES, law)
