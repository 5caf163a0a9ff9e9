"""Truncated normal initialisation under an adversarial random generator."""
import math

import numpy as np
import torch

from sim.core import Violation
from sim.env import seed_all
from sim.world import disturb, gen_env, shrink_ops

ID = "C31"
QUICK = 2500
RULE = ("Seeded sequences of initialisations whose normal generator is the simulator's: for a bounded number of rounds it answers with values "
        "beyond, at and just around two deviations, on seeded elements, always the same ones or different ones, and returns to the real "
        "generator afterwards; the result is judged for range, shape, type and a bounded number of draws.")
REAL = ["truncated_normal", "HardMGUCell and HardMGUCellFXP construction and reset_parameters"]
STUB = ["torch.Tensor.normal_ (adversarial for the first rounds)"]
KINDS = ["tensor", "tensor", "param", "double", "view", "cell", "fxp", "reset"]
PLANS = ["none", "outliers", "outliers", "boundary", "all-out", "same", "one", "alternate", "first-only", "late"]
PROBES = ["kind:" + k for k in sorted(set(KINDS))] + ["plan:" + p for p in sorted(set(PLANS))] + ["rounds>3", "boundary-kept"]


def gen(r, tier):
    ops = []
    for _ in range(r.choice([1, 1, 2, 3])):
        dims = r.choice([[], [1], [7], [3, 4], [2, 3, 2], [40], [0], [1, 1]])
        ops.append(dict(k=r.choice(KINDS), sh=dims, i=r.randint(1, 4), h=r.choice([1, 2, 3, 5, 8]), bias=r.choice([True, False]),
                        mean=r.choice([0, 0, 0.0, 1.5, -3, 100.0, 1e-3]), std=r.choice([0.01, 1, 0.5, 0.1, 3, 1e-3, 25.0]),
                        plan=r.choice(PLANS), rounds=r.choice([1, 2, 3, 5, 10, 30 if tier == "quick" else 200]), seed=r.getrandbits(31)))
    return dict(ops=ops, env=gen_env(r, len(ops), ("reseed", "draw", "gc", "peer")), gseed=r.getrandbits(31))


class Adversary:
    """Stands in for torch.Tensor.normal_ during one initialisation."""

    def __init__(self, plan, rounds, seed, ctx, limit, calls=1):
        self.plan, self.rounds, self.ctx, self.limit = plan, rounds, ctx, limit
        self.g = np.random.RandomState(seed % 2 ** 31)
        self.n = 0
        self.per = {}
        self.real = torch.Tensor.normal_

    def __enter__(self):
        me = self

        def normal_(t, mean=0.0, std=1.0, *, generator=None):
            return me.draw(t, float(mean), float(std))
        torch.Tensor.normal_ = normal_
        return self

    def __exit__(self, *a):
        torch.Tensor.normal_ = self.real

    def draw(self, t, mean, std):
        self.n += 1
        if self.n > self.limit:
            raise Violation("no-progress", "%d draws for one initialisation, %d of them adversarial" % (self.n, self.rounds))
        self.real(t, mean, std)
        key = tuple(t.shape)
        k = self.per[key] = self.per.get(key, -1) + 1
        m = t.numel()
        if not m or k >= self.rounds or self.plan == "none" or (self.plan == "first-only" and k) or (self.plan == "late" and k < 1):
            return t
        if self.plan == "alternate" and k % 2:
            return t
        g = self.g
        z = (t.detach().double().reshape(-1).numpy() - mean) / std
        if self.plan == "all-out":
            who = np.ones(m, bool)
        elif self.plan == "same":
            who = np.zeros(m, bool)
            who[0] = True
        elif self.plan == "one":
            who = np.zeros(m, bool)
            who[g.randint(m)] = True
        else:
            who = g.rand(m) < 0.4
        # normal variates reach six deviations in practice
        bad = g.choice([-1, 1], m) * (2.01 + 4 * g.rand(m))
        if self.plan == "boundary":
            bad = g.choice([-1, 1], m) * g.choice([2.001, 2.0001, 1.9999, 1.999], m)
            self.ctx.probe("boundary-kept")
        z = np.where(who, bad, z)
        with torch.no_grad():
            t.copy_(torch.from_numpy((mean + std * z).reshape(tuple(t.shape))).to(t.dtype))
        self.ctx.fault("draw-" + self.plan, int(who.sum()))
        if k >= 3:
            self.ctx.probe("rounds>3")
        return t


def judge(t, mean, std, sh, dtype, what):
    if not isinstance(t, torch.Tensor):
        raise Violation("bad-output", "%s is %s" % (what, type(t).__name__))
    if list(t.shape) != list(sh):
        raise Violation("bad-shape", "%s has shape %s, requested %s" % (what, list(t.shape), list(sh)))
    if t.dtype != dtype:
        raise Violation("bad-dtype", "%s has type %s, requested %s" % (what, t.dtype, dtype))
    a = t.detach().double().numpy()
    e = 1e-5 * std + 2e-7 * abs(mean)
    bad = ~(np.abs(a - mean) <= 2 * std + e)
    if bad.any():
        raise Violation("out-of-range", "%s: %d of %d elements beyond two deviations, e.g. %r for mean %g, deviation %g" % (
            what, int(bad.sum()), bad.size, float(a[bad].reshape(-1)[0]), mean, std))


def run(scn, ctx):
    from UnarySim.kernel.rnn import HardMGUCell, HardMGUCellFXP
    from UnarySim.kernel.utils import truncated_normal
    seed_all(scn["gseed"])
    env = {}
    for g, op, arg in scn["env"]:
        env.setdefault(g, []).append((op, arg))
    for g, o in enumerate(scn["ops"]):
        ctx.info.update(step=g, node=g)
        for op, a in env.get(g, ()):
            disturb(op, a, ctx)
        ctx.probe("kind:" + o["k"])
        ctx.probe("plan:" + o["plan"])
        k, sh = o["k"], o["sh"]
        adv = Adversary(o["plan"], o["rounds"], o["seed"], ctx, 4 * o["rounds"] + 400)
        if k in ("cell", "fxp", "reset"):
            C = HardMGUCellFXP if k == "fxp" else HardMGUCell
            if k == "reset":
                m = C(o["i"], o["h"], bias=o["bias"])
                with adv:
                    m.reset_parameters()
            else:
                with adv:
                    m = C(o["i"], o["h"], bias=o["bias"])
            std = 1 / math.sqrt(o["h"])
            want = {"weight_f": [o["h"], o["h"] + o["i"]], "weight_n": [o["h"], o["h"] + o["i"]]}
            if o["bias"]:
                want.update(bias_f=[o["h"]], bias_n=[o["h"]])
            ps = dict(m.named_parameters())
            for n in sorted(want):
                if n not in ps:
                    raise Violation("lost-parameter", "%s has no parameter %s" % (C.__name__, n))
                judge(ps[n], 0, std, want[n], torch.float, "%s.%s" % (C.__name__, n))
            got = [ps[n] for n in sorted(want)]
        else:
            dt = torch.double if k == "double" else torch.float
            t = torch.empty(sh, dtype=dt).fill_(float(o["seed"] % 1000))
            if k == "param":
                t = torch.nn.Parameter(t, requires_grad=False)
            elif k == "view" and len(sh) >= 2:
                t = torch.empty(sh[::-1], dtype=dt).permute(*range(len(sh) - 1, -1, -1))
            with adv:
                out = truncated_normal(t, o["mean"], o["std"])
            judge(out, o["mean"], o["std"], sh, dt, "truncated_normal of %s elements" % sh)
            got = [out]
        ctx.cycles += adv.n
        ctx.log(g, adv.n, [x.detach().reshape(-1).tolist() for x in got])


def shrink(scn, viol):
    if scn["env"]:
        yield dict(scn, env=[])
    for s in shrink_ops(scn, viol):
        s["env"] = []
        yield s
    for i, o in enumerate(scn["ops"]):
        for f, v in (("sh", [1]), ("h", 1), ("i", 1), ("mean", 0), ("std", 1), ("rounds", 1)):
            if o[f] != v:
                yield dict(scn, ops=[dict(x, **{f: v}) if j == i else x for j, x in enumerate(scn["ops"])])
