"""Aliasing: one component left alone, its twin among neighbours that reuse buffers, overwrite inputs and keep every output."""
import copy

import numpy as np
import torch

from sim import benches as B
from sim.actors import Actor, gen_actor
from sim.core import Violation
from sim.env import seed_all
from sim.world import disturb, gen_env, gen_schedule, shrink_ops

ID = "C32"
QUICK = 2000
RULE = ("Seeded worlds of 1-3 pairs of one component on the same streams: one twin gets fresh tensors, the other gets reused buffers and tensors "
        "that are overwritten in place after the call; every delivered output is kept and compared with its copy after every later event, every "
        "input is compared with its copy after the call, and both twins must deliver the same values.")
REAL = ["every streaming kernel, converter, generator, monitor, layer and recurrent cell"]
STUB = ["bit producers that reuse and overwrite their buffers", "consumers that keep outputs", "clock", "entropy at construction"]
PROBES = ["buffer", "scribble", "kept", "kind:kernel", "kind:heavy", "kind:metric", "kind:layer", "kind:hard", "kind:hub", "same-object", "out-scribble"]
PASS = (("hardtanh", "out"), ("skewsync", "o2"))        # deliver the tensor they were given


def gen(r, tier):
    specs = []
    for _ in range(r.choice([1, 1, 2, 3])):
        s = gen_actor(r, T=r.choice([6, 15, 40]))
        specs.append(dict(spec=s, how=[r.choice(["buffer", "buffer", "scribble", "scribble", "plain"]) if r.random() < 0.5 else None for _ in range(s["T"])],
                          main=r.choice(["buffer", "scribble"]), same=r.random() < 0.15, out=r.random() < 0.3,
                          vals=[r.choice([0, 1, 1, 5, -1]) for _ in range(s["T"])]))
    T = [s["spec"]["T"] for s in specs]
    ops = gen_schedule(r, [t for t in T for _ in (0, 1)])
    return dict(specs=specs, ops=ops, env=gen_env(r, len(ops), ("reseed", "draw", "gc", "peer", "mode", "grad")), gseed=r.getrandbits(31))


class Twin:
    def __init__(self, d, ctx, rough):
        self.d, self.ctx, self.rough = d, ctx, rough
        self.a = Actor(d["spec"], ctx)
        self.kept = []
        self.buf = {}
        self.sent = []
        self.hist = []
        self.t_in = None

    def build(self):
        self.a.build()
        if hasattr(self.a, "n"):
            real = self.a.n.inputs
            self.a.n.inputs = lambda: self.inputs(real())
        return self

    def how(self):
        return (self.d["how"][self.a.t] or self.d["main"]) if self.rough else "plain"

    def inputs(self, x):
        """What the producer hands over this cycle."""
        if self.d["same"] and len(x) == 2:
            # one wire feeds both ports, in both twins
            p, q = list(x)
            if x[p].shape == x[q].shape:
                x[q] = x[p] if self.rough else x[p].clone()
                self.ctx.probe("same-object", int(self.rough))
        if self.how() == "buffer":
            ids = {}
            for p in list(x):
                if id(x[p]) in ids:
                    x[p] = x[ids[id(x[p])]]
                    continue
                ids[id(x[p])] = p
                if p not in self.buf:
                    self.buf[p] = x[p].clone()
                else:
                    self.buf[p].copy_(x[p])
                x[p] = self.buf[p]
            self.ctx.probe("buffer")
        self.sent = [(p, v, v.clone()) for p, v in x.items()]
        return x

    def step(self):
        a, t = self.a, self.a.t
        how = self.how()
        if not hasattr(a, "n"):
            old = None if a.state is None else np.array(a.state)
        res = a.step()
        if not hasattr(a, "n"):
            want = [a.data[t]] + ([old] if len(a.last_in) > 1 else [])
            self.sent = [("input %d" % i, x, torch.tensor(w)) for i, (x, w) in enumerate(zip(a.last_in, want))]
        for p, v, c in self.sent:
            if v.dtype != c.dtype or v.shape != c.shape or not torch.equal(v.detach(), c):
                raise Violation("input-modified", "%s wrote to its %s at its cycle %d" % (a.name, p, t))
        if a.kind != "metric":
            outs = [(o, y) for o, y in zip(sorted(n for n, _ in res), a.last_out) if (a.name, o) not in PASS]
            if self.rough and self.d["out"] and t % 2:
                for o, y in outs:
                    if not y.requires_grad:
                        with torch.no_grad():
                            y.fill_(self.d["vals"][t])
                        self.ctx.fault("output-overwritten")
                        self.ctx.probe("out-scribble")
            else:
                for o, y in outs:
                    self.kept.append((t, o, y, y.detach().clone()))
                    self.ctx.probe("kept")
        if how == "scribble":
            for _, v, _ in self.sent:
                with torch.no_grad():
                    v.fill_(self.d["vals"][t])
                self.ctx.fault("input-overwritten")
                self.ctx.probe("scribble")
        elif how == "buffer":
            self.ctx.fault("buffer-reused")
        self.hist.append(res)
        return t

    def check(self):
        for t, o, y, c in self.kept:
            if y.dtype != c.dtype or y.shape != c.shape or not torch.equal(y.detach().nan_to_num(), c.nan_to_num()):
                raise Violation("output-changed", "%s.%s delivered at its cycle %d changed afterwards" % (self.a.name, o, t))


def run(scn, ctx):
    seed_all(scn["gseed"])
    tw = []
    for i, d in enumerate(scn["specs"]):
        ctx.probe("kind:" + d["spec"]["kind"])
        for rough in (False, True):
            ctx.info["node"] = len(tw)
            tw.append(Twin(d, ctx, rough).build())
    env = {}
    for g, op, arg in scn["env"]:
        env.setdefault(g, []).append((op, arg))
    last = 0
    for g, i in enumerate(scn["ops"]):
        if i >= len(tw) or tw[i].a.t >= tw[i].a.T:
            continue
        ctx.info.update(step=g, node=i)
        for op, arg in env.get(g, ()):
            disturb(op, arg, ctx)
        x = tw[i]
        if x.a.kind == "hub":
            # its result depends on the process-wide generators only through sources it does not use here
            seed_all(scn["gseed"] + x.a.t)
        t = x.step()
        y = tw[i ^ 1]
        if len(y.hist) > t:
            for (o, u), (_, v) in zip(x.hist[t], y.hist[t]):
                if u.shape != v.shape or u.tobytes() != v.tobytes():
                    raise Violation("aliased", "%s.%s at its cycle %d depends on what the caller did with tensors of earlier calls" % (x.a.name, o, t))
        ctx.log(i, t, [a.sum() for _, a in x.hist[t]])
        x.check()
        if g - last >= 12:
            last = g
            for z in tw:
                z.check()
    for z in tw:
        z.check()
        z.a.check_given("at the end")


def shrink(scn, viol):
    if scn["env"]:
        yield dict(scn, env=[])
    bad = viol.get("node")
    if len(scn["specs"]) > 1 and bad is not None:
        k = bad // 2
        s = copy.deepcopy(scn)
        s["specs"] = [s["specs"][k]]
        s["ops"] = [i - 2 * k for i in s["ops"] if i // 2 == k]
        s["env"] = []
        yield s
    for s in shrink_ops(scn, viol):
        s["env"] = []
        yield s
    for k, d in enumerate(scn["specs"]):
        for f, v in (("same", False), ("out", False)):
            if d[f]:
                s = copy.deepcopy(scn)
                s["specs"][k][f] = v
                yield s
        if any(d["how"]):
            s = copy.deepcopy(scn)
            s["specs"][k]["how"] = [None] * len(d["how"])
            yield s
