"""Streaming convolution"""
from sim.world import shrink_world as shrink, worldprop  # noqa: F401
from sim.laws import law

ID = "C08"
QUICK = 1500
RULE = "Seeded worlds of 1-3 live convolutions with seeded configuration, streams, link faults, clock interleaving and disturbances."
REAL = ["kernel/conv.py FSUConv2d, FSUConv2dPC", "kernel/add.py FSUAdd", "stream/gen.py"]
STUB = ["random draws during construction (simulated entropy)", "bit producers (explicit waveforms with link faults)", "clock (seeded scheduler)"]
PROBES = ["bench:conv", "bench:convpc", "saturated"]
BENCHES = ["conv", "convpc", "conv"]
gen, run = worldprop(BENCHES, law)
