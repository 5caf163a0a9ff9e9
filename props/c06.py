"""Unary multiplier"""
from sim.world import shrink_world as shrink, worldprop  # noqa: F401
from sim.laws import law

ID = "C06"
QUICK = 2000
RULE = "Seeded worlds of 1-3 live multipliers with seeded configuration, streams, link faults, clock interleaving and disturbances."
REAL = ["kernel/mul.py FSUMul", "kernel/shiftreg.py ShiftReg", "stream/gen.py RNG, BinGen, BSGen"]
STUB = ["random draws during construction (simulated entropy)", "bit producers (explicit waveforms with link faults)", "clock (seeded scheduler)"]
PROBES = ["source-wrapped", "mode:unipolar", "mode:bipolar", "bench:mul", "bench:mulis"]
BENCHES = ["mul", "mul", "mulis"]
gen, run = worldprop(BENCHES, law)
