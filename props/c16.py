"""Monitor ProgError: any history of monitored bits, read at any moment."""
import contextlib
import io
import re
import warnings

import numpy as np

from metricworld import make
from sim.core import Violation

ID = "C16"
QUICK = 1800
RULE = "Seeded worlds of 1-3 live ProgError monitors on faulty links; monitoring and reading interleave in a seeded order."
REAL = ["metric/metric.py ProgError", "kernel/utils.py progerror_report"]
STUB = ["bit producers (explicit waveforms with link faults)", "clock"]
PROBES = ["bench:progerr", "read-again", "buffer-reused", "long-run", "report", "report-values", "report-relative"]


def extra(n, got, Violation):
    pass


NUM = re.compile(r"[-+]?(?:\d+\.\d+|nan|inf)")


def stats(a, rms):
    a = np.asarray(a, float)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        v = [a.min(), a.max(), a.std(ddof=1) if a.size > 1 else np.nan, a.mean()]
    return v + ([np.sqrt((a * a).mean())] if rms else [])


def report(n, ctx):
    """The printed report of a live monitor: its lines carry the statistics of the recorded history."""
    from UnarySim.kernel import progerror_report
    ctx.probe("report")
    value, relative = n.t % 2 == 0, n.t % 3 == 0
    out = io.StringIO()
    with contextlib.redirect_stdout(out), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        progerror_report(n.m, "monitor", report_value=value, report_relative=relative)
    want = n.b.mread(n.ref)
    pp, pe = np.broadcast_arrays(want["pp"], want["pe"])
    lines = [l for l in out.getvalue().splitlines() if l.strip()]
    exp = [("Absolute Error range", stats(pe, True))]
    if value:
        exp.insert(0, ("Unary    Value range", stats(pp, False)))
        exp.insert(0, ("Binary   Value range", stats(n.ref.src, False)))
        ctx.probe("report-values")
    if relative:
        ok = np.abs(pp).min() > 0.03
        exp.append(("Relative Error range", stats(pe / pp, True) if ok else None))
        ctx.probe("report-relative")
    if len(lines) != len(exp):
        raise Violation("wrong-report", "the report of %s has %d lines, not %d" % (n.n["b"], len(lines), len(exp)))
    for l, (what, w) in zip(lines, exp):
        if what.split() != l.split(", ")[1].split(",")[0].split()[:3]:
            raise Violation("wrong-report", "the report says %r where %r belongs" % (l, what))
        if w is None:
            continue
        got = [float(x) for x in NUM.findall(l.split("range", 1)[1])]
        if len(got) != len(w) or not np.allclose(got, w, rtol=1e-3, atol=1e-5 + 1e-5 * np.nanmax(np.abs(w)), equal_nan=True):
            raise Violation("wrong-report", "%s after %d cycles: reported %s, the history gives %s" % (what, n.t, got, w))


gen, run, shrink = make("progerr", extra, report)
