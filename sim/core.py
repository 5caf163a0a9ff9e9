"""Run context, seeds, forked execution, minimisation, replay, evidence."""
import copy
import hashlib
import json
import os
import random
import re
import select
import signal
import struct
import subprocess
import sys
import time
import traceback
from collections import Counter

from . import boot

VERIF = boot.VERIF
RUN_LIMIT = 90          # wall seconds for one simulated run (typical: < 1 s)


class Violation(Exception):
    """The code under test broke the property."""

    def __init__(self, kind, detail=""):
        Exception.__init__(self, kind + ": " + detail)
        self.kind = kind
        self.detail = detail


class Hang(BaseException):
    pass


class HarnessError(Exception):
    pass


def seed_int(*parts):
    h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


class Ctx:
    """One simulated run: event log digest, probes, fault counters, clock."""

    def __init__(self):
        self._h = hashlib.sha256()
        self.faults = Counter()
        self.probes = Counter()
        self.cycles = 0
        self.events = 0
        self.trace = None      # list when a human-readable log is wanted
        self.info = {}

    def log(self, *items):
        self.events += 1
        s = repr(items)
        self._h.update(s.encode())
        if self.trace is not None:
            self.trace.append(s[:300])

    def log_bytes(self, tag, data):
        self.events += 1
        self._h.update(tag.encode())
        self._h.update(data)

    def digest(self):
        return self._h.hexdigest()[:24]

    def fault(self, kind, n=1):
        if n:
            self.faults[kind] += n

    def probe(self, name, n=1):
        if n:
            self.probes[name] += n

    def check(self, cond, kind, detail=""):
        if not cond:
            raise Violation(kind, detail() if callable(detail) else detail)


# ---------------------------------------------------------------- one run

def classify(exc):
    """(is_violation, kind, detail) of an exception that ended a run."""
    if isinstance(exc, Violation):
        return True, exc.kind, exc.detail
    tb = traceback.extract_tb(exc.__traceback__)
    sut = [f for f in tb if boot.in_sut(f.filename)]
    text = "%s: %s" % (type(exc).__name__, str(exc)[:300])
    if isinstance(exc, Hang):
        if sut:
            return True, "no-progress", "call did not return; last seen in %s" % sut[-1].name
        return False, "harness-timeout", "".join(traceback.format_list(tb[-4:]))
    if sut:
        f = sut[-1]
        return True, "exception:" + type(exc).__name__, "%s (in %s of %s)" % (
            text, f.name, os.path.relpath(f.filename, boot.REPO))
    return False, "harness-error", text + "\n" + "".join(traceback.format_list(tb[-6:]))


def _alarm(signum, frame):
    raise Hang()


def run_one(prop, scn, trace=False, limit=None):
    """Execute one scenario in this process. Returns a plain dict."""
    ctx = Ctx()
    if trace:
        ctx.trace = []
    t0 = time.perf_counter()
    res = dict(viol=None, err=None)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit or RUN_LIMIT)
    from .env import fresh
    fresh()
    try:
        prop.run(scn, ctx)
    except BaseException as e:          # noqa: B902 - classified, never swallowed
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        bad, kind, detail = classify(e)
        if bad:
            ctx.log("violation", kind)
            res["viol"] = dict(kind=kind, detail=detail, step=ctx.info.get("step"), node=ctx.info.get("node"))
        else:
            res["err"] = kind + ": " + detail
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    res.update(digest=ctx.digest(), faults=dict(ctx.faults), probes=dict(ctx.probes),
               cycles=ctx.cycles, events=ctx.events, wall=time.perf_counter() - t0)
    if trace:
        res["trace"] = ctx.trace
    return res


# ------------------------------------------------- forked, pristine execution

def _child(fn, wfd):
    try:
        data = json.dumps(fn()).encode()
    except BaseException as e:  # noqa: B902
        data = json.dumps(dict(crash="".join(traceback.format_exception(e))[-3000:])).encode()
    try:
        with os.fdopen(wfd, "wb") as f:
            f.write(struct.pack(">Q", len(data)))
            f.write(data)
    finally:
        os._exit(0)


class Job:
    def __init__(self, key, fn, timeout):
        self.key = key
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            try:
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
            except OSError:
                pass
            _child(fn, w)
        os.close(w)
        self.fd = r
        self.buf = b""
        self.deadline = time.monotonic() + timeout
        self.result = None

    def pump(self):
        """True when finished."""
        chunk = os.read(self.fd, 1 << 20)
        if chunk:
            self.buf += chunk
            return False
        self._reap()
        if len(self.buf) >= 8:
            n = struct.unpack(">Q", self.buf[:8])[0]
            if len(self.buf) == 8 + n:
                self.result = json.loads(self.buf[8:].decode())
                return True
        self.result = dict(crash="child ended without a result")
        return True

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        self._reap()
        self.result = dict(timeout=True)

    def _reap(self):
        os.close(self.fd)
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass


def fork_map(tasks, workers, on_result, stop=lambda: False):
    """tasks: iterator of (key, fn, timeout); on_result(key, result)."""
    running = {}
    it = iter(tasks)
    done_in = False
    while True:
        while not done_in and len(running) < workers and not stop():
            try:
                key, fn, timeout = next(it)
            except StopIteration:
                done_in = True
                break
            j = Job(key, fn, timeout)
            running[j.fd] = j
        if not running:
            return
        if stop() and done_in is False:
            done_in = True
        rd, _, _ = select.select(list(running), [], [], 0.5)
        for fd in rd:
            j = running[fd]
            if j.pump():
                del running[fd]
                on_result(j.key, j.result)
        now = time.monotonic()
        for fd, j in list(running.items()):
            if now > j.deadline:
                j.kill()
                del running[fd]
                on_result(j.key, j.result)


def run_fresh(prop, scns, limit=None, trace=False):
    """Run a list of scenarios in order in one pristine child; result of the last
    one (or of the first that is not clean)."""
    box = []

    def body():
        r = None
        for s in scns:
            r = run_one(prop, s, trace=trace, limit=limit)
            if r["viol"] or r["err"]:
                break
        return r
    fork_map([(0, body, (limit or RUN_LIMIT) * max(1, len(scns)) + 30)], 1,
             lambda k, r: box.append(r))
    r = box[0]
    if r.get("timeout"):
        return dict(viol=dict(kind="no-progress", detail="the process did not return to the simulator", step=None, node=None),
                    err=None, digest="", faults={}, probes={}, cycles=0, events=0, wall=0)
    if r.get("crash"):
        return dict(viol=None, err="child crash: " + r["crash"], digest="", faults={}, probes={}, cycles=0, events=0, wall=0)
    return r


# ------------------------------------------------------------- minimisation

def ddmin_list(items, test):
    """Greedy delta debugging on a list; test(list)->bool keeps the failure."""
    n = 2
    items = list(items)
    while len(items) >= 1:
        chunk = max(1, len(items) // n)
        reduced = False
        i = 0
        while i < len(items):
            cand = items[:i] + items[i + chunk:]
            if test(cand):
                items = cand
                reduced = True
            else:
                i += chunk
        if chunk == 1 and not reduced:
            break
        n = n if reduced else min(len(items) or 1, n * 2)
        if chunk == 1:
            break
    return items


def minimise(prop, prelude, scn, viol, budget_s=45, max_trials=250):
    t_end = time.monotonic() + budget_s
    trials = [0]

    def fails(pre, s):
        if time.monotonic() > t_end or trials[0] >= max_trials:
            return False
        trials[0] += 1
        r = run_fresh(prop, pre + [s], limit=30)
        v = r.get("viol")
        return bool(v) and v["kind"] == viol["kind"]

    if prelude:
        if fails([], scn):
            prelude = []
        else:
            prelude = ddmin_list(prelude, lambda p: fails(p, scn))
    shrink = getattr(prop, "shrink", None)
    if shrink is not None and viol["kind"] != "no-progress":
        progress = True
        while progress and time.monotonic() < t_end and trials[0] < max_trials:
            progress = False
            for cand in shrink(copy.deepcopy(scn), viol):
                if time.monotonic() > t_end or trials[0] >= max_trials:
                    break
                if cand == scn:
                    continue
                if fails(prelude, cand):
                    scn = cand
                    progress = True
                    break
    return prelude, scn, trials[0]


# ------------------------------------------------------------ known findings

def load_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [x for x in json.load(f)["findings"] if x["property"] == pid and x["status"] == "open"]


def match_finding(findings, scn, viol):
    for f in findings:
        m = f["match"]
        if m.get("kind") and m["kind"] != viol["kind"]:
            continue
        if m.get("detail_re") and not re.search(m["detail_re"], viol["detail"] or ""):
            continue
        ok = True
        for k, v in m.get("scenario", {}).items():
            cur = scn
            for part in k.split("."):
                cur = cur.get(part) if isinstance(cur, dict) else None
            if cur != v:
                ok = False
        if ok:
            return f
    return None
