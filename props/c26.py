"""Determinism: disturbed randomness and clocks against a calm run; generators untouched by stepping."""
import copy
import time

import numpy as np
import torch

from sim import benches as B
from sim.actors import Actor, gen_actor
from sim.core import Hang, Violation
from sim.env import draw_all, rng_fingerprint, seed_all
from sim.world import disturb, gen_env, gen_schedule, shrink_ops
from props.c23 import alone

ID = "C26"
QUICK = 2000
CHUNK = 2
RULE = ("Seeded populations of 1-3 live objects clocked while the process-wide torch, numpy and Python generators are reseeded, drained or "
        "poisoned and the wall clock jumps; histories are compared with a calm run in a pristine process and the generator states are "
        "compared before and after every step. Objects with deterministic sources are built under a different random state.")
REAL = ["stream/*", "kernel/*", "metric/metric.py", "torch, numpy and Python random generators"]
STUB = ["random draws during construction (simulated entropy)", "wall clock", "bit producers"]
PROBES = ["other-entropy", "no-seam", "clock-jump", "generator-state-compared"]
DETSRC = ("sobol", "rc", "race", "tc", "race10", "tc10")


def det(a):
    """Whether this construction uses deterministic number sources only."""
    if "node" in a:
        return a["node"]["c"].get("rng", "sobol").lower() in DETSRC
    if a["kind"] == "layer":
        hw = a["c"]["hw"]
        return all(hw.get(k, "sobol").lower() in DETSRC for k in ("rngi", "rngw"))
    return a["kind"] == "hub"


def gen(r, tier):
    n = r.choice([1, 2, 2, 3])
    acts = [gen_actor(r, T=r.choice([None, 10, 25])) for _ in range(n)]
    ops = []
    p = r.choice([0.05, 0.2, 0.6])
    for i in gen_schedule(r, [a["T"] for a in acts]):
        while r.random() < p:
            ops.append([r.choice(["reseed", "reseed", "draw", "draw", "poison", "clock", "state"]), r.getrandbits(31)])
        ops.append(["step", i])
    return dict(acts=acts, ops=ops, how=[r.choice(["same", "entropy", "entropy", "bare"]) for _ in acts],
                env=gen_env(r, len(ops), ("gc", "peer", "grad", "mode")), gseed=r.getrandbits(31), gseed2=r.getrandbits(31))


class Clock:
    NAMES = ("time", "time_ns", "monotonic", "monotonic_ns", "perf_counter", "perf_counter_ns")

    def __init__(self):
        self.now = 1.7e9
        self.saved = {n: getattr(time, n) for n in self.NAMES}

    def __enter__(self):
        for n in self.NAMES:
            setattr(time, n, (lambda: int(self.now * 1e9)) if n.endswith("_ns") else (lambda: self.now))
        return self

    def __exit__(self, *a):
        for n, f in self.saved.items():
            setattr(time, n, f)


def run(scn, ctx):
    want = alone(scn["acts"], ctx, scn["gseed"])
    with Clock() as clock:
        try:
            session(scn, ctx, want, clock)
        finally:
            torch.set_grad_enabled(True)


def session(scn, ctx, want, clock):
    seed_all(scn["gseed2"])
    acts = []
    for k, s in enumerate(scn["acts"]):
        ctx.info["node"] = k
        how = scn["how"][k]
        if how != "same" and det(s):
            s = copy.deepcopy(s)
            ctx.fault("built-under-other-randomness")
            if "node" in s:
                s["node"]["key"] ^= 0x5A5A5A
            elif s["kind"] == "layer":
                s["c"]["key"] ^= 0x5A5A5A
            ctx.probe("other-entropy" if how == "entropy" else "no-seam")
        if how == "bare" and det(s):
            real = B.Entropy.installed
            B.Entropy.installed = lambda self: _bare()
            from sim import layers as L
            try:
                a = Actor(s, ctx)
                build(a)
            finally:
                B.Entropy.installed = real
        else:
            a = Actor(s, ctx)
            build(a)
        acts.append(a)
    env = {}
    for g, op, arg in scn["env"]:
        env.setdefault(g, []).append((op, arg))
    dead = set()
    seed_all(scn["gseed2"])
    for g, (op, k) in enumerate(scn["ops"]):
        ctx.info.update(step=g)
        for e, v in env.get(g, ()):
            disturb(e, v, ctx)
        if op == "reseed":
            ctx.fault("env-reseed")
            seed_all(k)
        elif op == "draw":
            ctx.fault("env-draw")
            draw_all(1 + k % 70)
        elif op == "poison":
            # a generator about to be used up / in an unusual position
            ctx.fault("env-poison")
            np.random.seed(k % (2 ** 32))
            np.random.randn(1)              # leaves a cached gaussian behind
            torch.randn(1 + k % 3)
        elif op == "state":
            ctx.fault("env-state")
            st = torch.get_rng_state()
            torch.rand(5)
            torch.set_rng_state(st)
        elif op == "clock":
            ctx.fault("clock-jump")
            ctx.probe("clock-jump")
            clock.now += [1e-9, 1.0, 86400.0, -3600.0, 1e7, -5e8][k % 6]
        elif op == "step":
            if k >= len(acts) or k in dead:
                continue
            ctx.info["node"] = k
            a = acts[k]
            if a is None or a.t >= a.T:
                continue
            t = a.t
            f0 = rng_fingerprint()
            try:
                h = a.step_hash()
            except (Violation, Hang):
                raise
            except Exception as e:
                h = "raised %s" % type(e).__name__
                dead.add(k)
            if rng_fingerprint() != f0:
                raise Violation("generator-advanced", "%s changed the state of a process-wide random generator at its cycle %d" % (a.name, t))
            ctx.probe("generator-state-compared")
            w = want[k][t] if t < len(want[k]) else "finished"
            if h != w:
                raise Violation("not-deterministic", "%s (object %d) at its cycle %d: %s, in a calm run %s" % (a.name, k, t, h, w))
            ctx.log(k, t, h)


def build(a):
    try:
        a.build()
    except (Violation, Hang):
        raise
    except Exception:
        a.t = a.T       # judged elsewhere


class _bare:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def shrink(scn, viol):
    if scn["env"]:
        yield dict(scn, env=[])
    n = len(scn["acts"])
    if n > 1:
        for i in range(n):
            s = copy.deepcopy(scn)
            del s["acts"][i]
            del s["how"][i]
            m = {o: w for w, o in enumerate(k for k in range(n) if k != i)}
            s["ops"] = [[a, m[b]] if a == "step" else [a, b] for a, b in s["ops"] if a != "step" or b in m]
            s["env"] = []
            yield s
    for i in range(n):
        if scn["how"][i] != "same":
            s = copy.deepcopy(scn)
            s["how"][i] = "same"
            yield s
    for s in shrink_ops(scn, viol):
        s["env"] = []
        yield s
