"""Hybrid layers over sessions of calls, updates and disturbances."""
from layersession import make

ID = "C19"
QUICK = 3000
RULE = ("Seeded sessions on 1-3 live layers (linear and convolution): calls with seeded data, repeated calls, parameter updates, training "
        "steps, restarts from snapshots, other components and random draws in between.")
REAL = ["kernel/linear.py", "kernel/conv.py", "kernel/utils.py", "stream/gen.py RNG"]
STUB = ["random draws during construction (simulated entropy)", "optimiser (writes simulator-chosen parameters)"]
PROBES = ["linear", "conv", "style:zeros", "style:outlier", "rounding:round", "rounding:floor", "rounding:ceil"]
ASSUME = ["data whose quantile exponent lies within 1e-3 of a rounding boundary are not generated"]

gen, run, shrink = make("hub")
