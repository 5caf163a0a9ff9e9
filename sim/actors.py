"""Actors: any live object of the library behind one interface, for the history
properties (isolation, snapshots, determinism, aliasing), which compare runs of
the same object with each other and need no model of what it computes."""
import copy
import hashlib

import numpy as np
import torch

from . import benches as B
from . import layers as L
from .core import Violation
from .env import obs, track
from .world import Node, gen_node

CHEAP = [b for b in B.KERNELS if b not in ("mgu", "conv", "convpc")]
METRICS = ["progerr", "stability", "correlation"]


def gen_actor(r, T=None, kinds=None, faults=True):
    k = r.choice(kinds or ["kernel"] * 9 + ["heavy", "metric", "layer", "layer", "hard", "hub"])
    if k in ("kernel", "heavy", "metric"):
        pool = dict(kernel=CHEAP, heavy=["mgu", "conv", "convpc", "linear", "linearpc"], metric=METRICS)[k]
        T = T or r.choice([8, 20, 40])
        if k == "kernel" and r.random() < 0.06:
            T = r.choice([110, 150, 280])      # a history long enough for counters to wrap and rails to be reached
        n = gen_node(r, r.choice(pool), T=T, faults=faults)
        return dict(kind=k, node=n, T=n["T"])
    T = min(T or 5, 6)
    if k == "layer":
        c = L.gen_layer(r, r.choice(["hub", "fxp", "tlut"]))
        return dict(kind=k, c=c, T=T, calls=[[r.getrandbits(30), r.choice([1, 1, 2, 3]), r.choice(["uniform", "normal", "pow2", "sparse"]),
                                              r.choice([1.0, 0.3, 5.0])] for _ in range(T)])
    i, h = r.choice([1, 2, 3]), r.choice([1, 2])
    c = dict(i=i, h=h, bias=r.choice([True, False]), seed=r.getrandbits(30), fxp=r.choice([False, True]), width=3, b=r.choice([1, 2]), grad=r.choice([True, False]),
             rng=r.choice(["Sobol", "sobol", "rc", "RC"]))
    if k == "hub":
        T = min(T, 3)
    return dict(kind=k, c=c, T=T, calls=[[r.getrandbits(30), r.random() < 0.2] for _ in range(T)])


def norm(v):
    """Numbers with one zero and one not-a-number, so equal values are equal bytes."""
    a = np.array(v, np.float64) + 0.0
    a[np.isnan(a)] = np.nan
    return a


def fixed_point_works():
    """Whether the finding of C15 (Round raises for floating-point data) is absent: only then a fixed-point cell can run."""
    from UnarySim.kernel import Round
    try:
        Round(1, 2)(torch.zeros(1))
    except NotImplementedError:
        return False
    return True


class Actor:
    def __init__(self, spec, ctx):
        self.spec, self.ctx = spec, ctx
        self.t = 0
        self.T = spec["T"]
        self.kind = spec["kind"]
        self.dicts, self.given = [], []
        self.last_in, self.last_out = [], []
        self.state = None

    @property
    def m(self):
        return self._m

    @m.setter
    def m(self, m):
        self._m = track(m)

    @property
    def name(self):
        return self.spec["node"]["b"] if "node" in self.spec else self.kind

    def build(self):
        B.GIVEN.clear()
        s = self.spec
        if "node" in s:
            self.n = Node(s["node"], self.ctx, reference=False)
            self.m, self.dicts = self.n.m, self.n.dicts
        elif s["kind"] == "layer":
            c = s["c"]
            w = L.gen_w(c, c["wseed"], c["wstyle"], c["wmag"])
            b = np.random.RandomState(c["wseed"]).uniform(-1, 1, c["o"]).astype(np.float32) if c["bias"] else None
            self.m, d = L.build(c, w, b)
            self.dicts = [d]
            self.data = [L.gen_x(c, sd, nb, st, mg) for sd, nb, st, mg in s["calls"]]
        else:
            self._cell()
        self.given = list(B.GIVEN)
        B.GIVEN.clear()
        return self

    def check_given(self, when, dicts=True):
        """What the constructor was handed is as it was."""
        for a, b in self.given:
            if isinstance(a, dict):
                if dicts and a != b:
                    raise Violation("dictionary-modified", "%s: %r became %r (%s)" % (self.name, b, a, when))
            elif a.shape != b.shape or a.dtype != b.dtype or not torch.equal(a.detach(), b):
                raise Violation("tensor-modified", "%s: a tensor handed to the constructor was changed (%s)" % (self.name, when))

    def _cell(self):
        from UnarySim.kernel import HardMGUCell, HardMGUCellFXP, HUBMGUCell
        c, s = self.spec["c"], self.spec
        r = np.random.RandomState(c["seed"])
        sh = (c["h"], c["h"] + c["i"])
        ps = [r.uniform(-1, 1, sh), r.uniform(-1, 1, sh), r.uniform(-1, 1, c["h"]), r.uniform(-1, 1, c["h"])]
        wf, wn, bf, bn = [torch.tensor(p, dtype=torch.float) for p in ps]
        if not c["bias"]:
            bf = bn = None
        if s["kind"] == "hub":
            d = B.share([{"width": c["width"], "mode": "bipolar", "depth": 8, "depth_ismul": 3, "rng": c["rng"], "dimr": 1}])[0]
            self.dicts = [d]
            self.m = HUBMGUCell(c["i"], c["h"], bias=c["bias"], weight_ext_f=B.give(wf), bias_ext_f=B.give(bf),
                                weight_ext_n=B.give(wn), bias_ext_n=B.give(bn), hwcfg=d)
        else:
            fxp = c["fxp"] and fixed_point_works()
            self.m = HardMGUCellFXP(c["i"], c["h"], bias=c["bias"]) if fxp else HardMGUCell(c["i"], c["h"], bias=c["bias"])
            with torch.no_grad():
                self.m.weight_f.copy_(wf)
                self.m.weight_n.copy_(wn)
                if c["bias"]:
                    self.m.bias_f.copy_(bf)
                    self.m.bias_n.copy_(bn)
        self.data = [np.random.RandomState(sd).uniform(-1, 1, (c["b"], c["i"])).astype(np.float32) for sd, _ in s["calls"]]

    def set_module(self, m):
        self.m = m
        if "node" in self.spec:
            self.n.m = m

    def step(self):
        """One clock event: list of (name, float64 array)."""
        t = self.t
        if "node" in self.spec:
            self.n.t = t
            out = self.n.step_dut()
            self.last_in = list(self.n.last_in.values())
            self.last_out = [out[k] for k in sorted(out)]
            res = [(o, norm(obs(out[o], "%s.%s" % (self.name, o)))) for o in sorted(out)]
        elif self.kind == "layer":
            x = torch.tensor(self.data[t])
            y = self.m(x)
            self.last_in, self.last_out = [x], [y]
            res = [("out", norm(obs(y, "layer output")))]
        else:
            c = self.spec["c"]
            x = torch.tensor(self.data[t])
            h = None if self.state is None or self.spec["calls"][t][1] else torch.tensor(self.state)
            with torch.set_grad_enabled(bool(c.get("grad", True))):
                y = self.m(x, h)
            self.last_in, self.last_out = [x] + ([h] if h is not None else []), [y]
            a = obs(y, "cell output", [c["b"], c["h"]])
            self.state = a.astype(np.float32)
            res = [("out", norm(a))]
        self.t = t + 1
        self.ctx.cycles += 1
        return res

    def step_hash(self):
        h = hashlib.sha256()
        for o, a in self.step():
            h.update(o.encode())
            h.update(repr(a.shape).encode())
            h.update(a.tobytes())
        return h.hexdigest()[:16]

    # everything outside the module that continues with it
    def aux(self):
        return copy.deepcopy(self.state)
