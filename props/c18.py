"""Monitor Correlation: any history of monitored bits, read at any moment."""
import numpy as np

from metricworld import make

ID = "C18"
QUICK = 1800
RULE = "Seeded worlds of 1-3 live Correlation monitors on faulty links; monitoring and reading interleave in a seeded order."
REAL = ["metric/metric.py Correlation"]
STUB = ["bit producers (explicit waveforms with link faults)", "clock"]
PROBES = ["bench:correlation", "read-again", "buffer-reused", "long-run"]


def extra(n, got, Violation):
    s = got["scc"]
    if not (np.abs(s) <= 1 + 1e-6).all():
        raise Violation("range", "correlation %r outside [-1, 1]" % float(s.reshape(-1)[0]))
    if n.c["two"]:
        a, b = n.x["a"][:n.t], n.x["b"][:n.t]
        s = s.reshape(-1)
        both = (a.min(0) == 0) & (a.max(0) == 1)
        eq, ne = (a == b).all(0) & both, (a != b).all(0) & both
        if (np.abs(s[eq] - 1) > 1e-6).any():
            raise Violation("identical", "identical streams have correlation %r" % float(s[eq][0]))
        if (np.abs(s[ne] + 1) > 1e-6).any():
            raise Violation("complementary", "complementary streams have correlation %r" % float(s[ne][0]))


gen, run, shrink = make("correlation", extra)
