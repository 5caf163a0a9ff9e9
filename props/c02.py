"""Bitstream generators under arbitrary cycle schedules."""
import numpy as np
import torch

from sim import benches as B
from sim.core import Violation
from sim.env import obs
from sim.world import World, compare, gen_world, probes, shrink_world

ID = "C02"
QUICK = 1800
RULE = ("Seeded worlds of 1-3 live generators; cycle indices arrive in order, stalled, repeated, jumping, backwards, very late or "
        "different per element; afterwards one full in-order period is counted.")
REAL = ["stream/gen.py RNG, BinGen, BSGen"]
STUB = ["random draws during construction (simulated entropy)", "cycle counter (seeded schedule)"]
PROBES = ["pat:" + p for p in ("in_order", "stall", "jump", "late", "lanes", "reverse")]


def gen(r, tier):
    return gen_world(r, ["bsgen"])


def run(scn, ctx):
    w = World(scn, ctx)

    def after(g, i, n, t, out):
        compare(n, t, out, ctx)
        if n.c["pat"] != "in_order":
            ctx.fault("clock-" + n.c["pat"])
    w.run(after)
    for i, n in enumerate(w.nodes):
        ctx.info["node"] = i
        ctx.probe("pat:" + n.c["pat"])
        k = 2 ** n.c["width"]
        seq = n.ref[1]
        if n.c["width"] <= 6:
            one = np.zeros(n.sh)
            for t in range(k):
                one += obs(n.m(torch.tensor([t])), "bit", n.sh, binary=True)
            ctx.cycles += k
            want = np.array(n.c["b"]).reshape(n.sh)
            if n.c["rng"].lower() == "lfsr":
                want = np.array([int((b > seq).sum()) for b in n.c["b"]]).reshape(n.sh)
            if (one != want).any():
                raise Violation("period-count", "a full period has %s ones, the codes are %s" % (
                    one.reshape(-1)[:4].tolist(), want.reshape(-1)[:4].tolist()))
        probes(n, ctx)


def shrink(scn, viol):
    for s in shrink_world(scn, viol):
        yield s
