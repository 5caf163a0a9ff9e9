"""Streaming activations"""
from sim.world import shrink_world as shrink, worldprop  # noqa: F401
from sim.laws import law

ID = "C09"
QUICK = 2000
RULE = "Seeded worlds of 1-3 live activations with seeded configuration, streams, link faults, clock interleaving and disturbances."
REAL = ["kernel/relu.py FSUReLU", "kernel/sigmoid.py FSUHardsigmoid", "kernel/tanh.py FSUHardtanh", "kernel/add.py FSUAdd"]
STUB = ["random draws during construction (simulated entropy)", "bit producers (explicit waveforms with link faults)", "clock (seeded scheduler)"]
PROBES = ["bench:relu", "bench:hardsigmoid", "bench:hardtanh"]
BENCHES = ["relu", "relu", "hardsigmoid", "hardtanh"]
gen, run = worldprop(BENCHES, law)
