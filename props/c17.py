"""Monitor Stability: any history of monitored bits, read at any moment."""
from metricworld import make

ID = "C17"
QUICK = 1800
RULE = "Seeded worlds of 1-3 live Stability monitors on faulty links; monitoring and reading interleave in a seeded order."
REAL = ["metric/metric.py Stability"]
STUB = ["bit producers (explicit waveforms with link faults)", "clock"]
PROBES = ["bench:stability", "read-again", "buffer-reused", "long-run", "error-equals-threshold"]


def extra(n, got, Violation):
    s = got["st"]
    if not ((s >= -1e-6) & (s <= 1 - 1 / n.t + 1e-6)).all():
        raise Violation("range", "stability %r outside [0, 1-1/%d]" % (float(s.reshape(-1)[0]), n.t))


gen, run, shrink = make("stability", extra)
