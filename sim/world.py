"""Worlds: several real components on one simulated clock.

A world scenario is explicit data:
  nodes: [{b: bench, c: configuration, sh: shape, key: entropy key, T: steps,
           lay: memory layout, w: {port: [bit string per lane]}, f: [link faults]}]
  sched: [node index, ...]            one entry per clock event
  env:   [[event index, operation, argument], ...]   disturbances before an event
"""
import copy
import gc

import numpy as np
import torch

from . import benches as B
from . import waves as W
from .core import Violation
from .env import draw_all, obs, same, seed_all, tens, toggle_modes, track, DT

ENV_ALL = ["reseed", "draw", "gc", "peer", "threads", "grad", "dtype"]


# ---------------------------------------------------------------- generation

def gen_schedule(r, lens):
    """A seeded interleaving of the steps of every node."""
    left = list(lens)
    style = r.choice(["uniform", "uniform", "bursts", "round", "starve", "serial"])
    out = []
    cur = r.randrange(len(left))
    weights = [r.choice([1, 1, 1, 5, 0.1]) for _ in left]
    while any(left):
        live = [i for i in range(len(left)) if left[i]]
        if style == "round":
            for i in live:
                out.append(i)
                left[i] -= 1
            continue
        if style == "serial":
            out += [live[0]] * left[live[0]]
            left[live[0]] = 0
            continue
        if style == "uniform":
            cur = r.choice(live)
        elif style == "starve":
            cur = r.choices(live, [weights[i] for i in live])[0]
        elif cur not in live or r.random() < 0.15:
            cur = r.choice(live)
        out.append(cur)
        left[cur] -= 1
    return out


def gen_node(r, bench, T=None, faults=True, big=False):
    b = B.ALL[bench]
    c, sh = b.gen(r, big)
    if not T:
        T = r.randint(*b.STEPS)
        if b.ELEMENTWISE and r.random() < (0.2 if big else 0.08):
            T *= 4
        elif b.ELEMENTWISE and r.random() < 0.01 and B.prod(sh) <= 4:
            T = 2600
        if b.span(c) > T // 3 and r.random() < 0.7:
            T = max(T, 3 * b.span(c))
    ports = {p: B.prod(b.pshape(c, sh, p)) for p in b.PORTS}
    w = {}
    style = r.choice(["mixed", "mixed", "mixed", None])
    one = r.choice(W.KINDS) if style is None else None
    for p, n in ports.items():
        w[p] = W.waves(r, T, n, one)
    if len(ports) == 2 and r.random() < 0.3:
        # correlated operands
        a, d = list(ports)
        if ports[a] == ports[d]:
            k = r.choice(["same", "inverse", "late"])
            w[d] = [x if k == "same" else "".join("10"[int(ch)] for ch in x) if k == "inverse" else "0" + x[:-1] for x in w[a]]
    f = W.gen_faults(r, T, ports, r.choice([0, 1, 1, 2, 3, 6])) if faults else []
    return dict(b=bench, c=c, sh=sh, key=r.getrandbits(32), T=T, lay=r.choice([0, 0, 3, 1, 2] if bench != "hardtanh" else [0, 0, 1, 2]), w=w, f=f)


def gen_world(r, benches, nodes=(1, 3), env=("reseed", "draw", "gc", "peer", "mode", "grad"), T=None, faults=True, big=False):
    ns = [gen_node(r, r.choice(benches), T, faults, big) for _ in range(r.randint(*nodes))]
    if len(ns) > 1 and r.random() < 0.3:
        # twins: same construction, different streams
        n = copy.deepcopy(ns[0])
        ports = {p: len(v) for p, v in n["w"].items()}
        n["w"] = {p: W.waves(r, n["T"], k) for p, k in ports.items()}
        n["f"] = W.gen_faults(r, n["T"], ports, 1) if faults else []
        ns[1] = n
    sched = gen_schedule(r, [n["T"] for n in ns])
    return dict(nodes=ns, sched=sched, env=gen_env(r, len(sched), env))


def gen_env(r, n, ops):
    out = []
    if not ops:
        return out
    for _ in range(r.choice([0, 1, 2, 4, 8])):
        op = r.choice(list(ops))
        arg = r.getrandbits(31)
        if op == "peer":
            arg = r.choice(["add", "mul", "relu", "bi2uni", "uni2bi", "skewsync", "signabs", "jkff", "cordiv", "div",
                            "sqrt", "shiftreg", "linear", "linearpc", "bsgen", "hardsigmoid"])
        out.append([r.randrange(n), op, arg])
    return sorted(out, key=lambda e: e[0])


# ------------------------------------------------------------------ execution

def peer(name, seed):
    """Somebody else builds and clocks another component; its own behaviour is not judged here."""
    import random
    r = random.Random("peer|%s|%s" % (name, seed))
    try:
        n = gen_node(r, name, T=3, faults=False)
        live = Node(n, None, reference=False)
        for t in range(3):
            live.step_dut()
    except Exception:
        pass


def disturb(op, arg, ctx, world=None):
    ctx.fault("env-" + op)
    if op == "reseed":
        seed_all(arg)
    elif op == "draw":
        draw_all(1 + arg % 50)
    elif op == "gc":
        gc.collect()
    elif op == "peer":
        peer(arg, 1)
    elif op == "threads":
        pass
    elif op == "grad":
        torch.set_grad_enabled(bool(arg % 2))
    elif op == "mode":
        toggle_modes(arg)
    elif op == "scribble" and world is not None:
        world.scribble(arg)
    elif op == "mutcfg" and world is not None:
        world.mutcfg(arg)


class Node:
    """One live component with its inputs and (optionally) its reference model."""

    def __init__(self, n, ctx, reference=True):
        self.n, self.ctx = n, ctx
        self.b = B.ALL[n["b"]]
        self.c, self.sh = n["c"], n["sh"]
        self.t = 0
        arrs = {p: W.to_array(w) if w else np.zeros((n["T"], 0), np.int64) for p, w in n["w"].items()}
        self.clean = arrs
        self.x = W.apply_faults(arrs, n["f"], ctx)
        self.ps = {p: list(self.b.pshape(self.c, self.sh, p)) for p in self.b.PORTS}
        self.m, self.dicts = self.b.build(copy.deepcopy(self.c), self.sh, n["key"])
        self.ref = self.b.model(self.c, self.sh, n["key"]) if reference else None
        self.last_in = None
        self.last_out = None
        self.bufs = None
        self.in_dt = self.b.in_dt(self.c)

    @property
    def m(self):
        return self._m

    @m.setter
    def m(self, m):
        self._m = track(m)

    def inputs(self, t=None):
        t = self.t if t is None else t
        x = {p: tens(self.x[p][t], self.in_dt, self.ps[p], self.n["lay"]) for p in self.b.PORTS}
        if self.n["lay"] == 3:
            # the producer drives the same buffers at every cycle
            if self.bufs is None:
                self.bufs = {p: v.clone() for p, v in x.items()}
            for p in x:
                self.bufs[p].copy_(x[p])
            x = dict(self.bufs)
        return x

    def ints(self, t=None):
        t = self.t if t is None else t
        return {p: self.x[p][t].reshape(self.ps[p]) for p in self.b.PORTS}

    def step_dut(self):
        x = self.inputs()
        self.last_in = x
        out = self.b.call(self.m, x, self.c, self.t)
        self.last_out = out
        self.t += 1
        return out

    def observe(self, out, dtype=False):
        got = {}
        for o in self.b.outs(self.c):
            sh = self.b.oshape(self.c, self.sh, o)
            binary = self.b.STREAM and o != "count"
            dt = self.b.out_dt(self.c) if dtype and self.b.STREAM and o != "count" else None
            got[o] = obs(out[o], "%s.%s" % (self.n["b"], o), sh, dt, binary)
        return got

    def step_ref(self, t):
        return self.b.mstep(self.ref, self.ints(t), self.c, t)


class World:
    def __init__(self, scn, ctx, reference=True):
        self.scn, self.ctx = scn, ctx
        seed_all(scn.get("gseed", 0))
        self.nodes = []
        for i, n in enumerate(scn["nodes"]):
            ctx.info["node"] = i
            self.nodes.append(Node(n, ctx, reference))

    def scribble(self, arg):
        for n in self.nodes:
            if n.last_in and n.b.NAME != "hardtanh":
                for x in n.last_in.values():
                    x.fill_(arg % 2)

    def mutcfg(self, arg):
        for n in self.nodes:
            for d in n.dicts:
                for k in sorted(d):
                    d[k] = {"mode": "unipolar" if arg % 2 else "bipolar", "scale": 3, "depth": 2, "entry": 5, "dima": 0}.get(
                        k, torch.double if k.endswith("type") else d[k])

    def run(self, after=None, before=None):
        scn, ctx = self.scn, self.ctx
        env = {}
        for g, op, arg in scn["env"]:
            env.setdefault(g, []).append((op, arg))
        for g, i in enumerate(scn["sched"]):
            if i >= len(self.nodes) or self.nodes[i].t >= self.nodes[i].n["T"]:
                continue
            for op, arg in env.get(g, ()):
                disturb(op, arg, ctx, self)
            n = self.nodes[i]
            ctx.info.update(step=g, node=i)
            if before:
                before(g, i, n)
            t = n.t
            out = n.step_dut()
            ctx.cycles += 1
            if after:
                after(g, i, n, t, out)
        return self


def compare(n, t, out, ctx, dtype=False):
    got = n.observe(out, dtype)
    want = n.step_ref(t)
    for o in sorted(want):
        same(got[o], want[o], "wrong-output", "%s.%s at its cycle %d" % (n.n["b"], o, t), n.b.TOL)
    for o in sorted(got):
        ctx.log_bytes("%d.%d.%s" % (ctx.info["node"], t, o), got[o].tobytes())
    return got, want


def run_model_world(scn, ctx, law=None):
    """Every output of every node equals its reference model at every event."""
    w = World(scn, ctx)
    laws = {}

    def after(g, i, n, t, out):
        got, want = compare(n, t, out, ctx)
        if law is not None:
            if i not in laws:
                laws[i] = law(n)
            if laws[i] is not None:
                laws[i].step(n.ints(t), got, ctx, t)
    w.run(after)
    for n in w.nodes:
        probes(n, ctx)


def probes(n, ctx):
    ref = n.ref
    ctx.probe("bench:" + n.n["b"])
    mode = n.c.get("mode")
    if mode:
        ctx.probe("mode:" + mode.lower())
    if n.c.get("rng"):
        ctx.probe("rng:" + n.c["rng"].lower())
    sat = getattr(ref, "sat", None)
    if sat is None and getattr(ref, "add", None) is not None:
        sat = getattr(ref.add, "sat", None)
    if sat:
        ctx.probe("saturated")


# ------------------------------------------------------------------ shrinking

def renumber(scn, keep):
    m = {old: new for new, old in enumerate(keep)}
    s = copy.deepcopy(scn)
    s["nodes"] = [scn["nodes"][i] for i in keep]
    idx, sched = {}, []
    for g, i in enumerate(scn["sched"]):
        if i in m:
            idx[g] = len(sched)
            sched.append(m[i])
    s["sched"] = sched
    s["env"] = [[idx[g], op, a] for g, op, a in scn["env"] if g in idx]
    return copy.deepcopy(s)


def shrink_world(scn, viol):
    """Candidates, most drastic first."""
    step = viol.get("step")
    if step is not None and step + 1 < len(scn["sched"]):
        s = copy.deepcopy(scn)
        s["sched"] = s["sched"][:step + 1]
        yield s
    # a shorter prefix
    n = len(scn["sched"])
    for k in (n // 2, 3 * n // 4, n - 1):
        if 0 < k < n:
            s = copy.deepcopy(scn)
            s["sched"] = s["sched"][:k]
            yield s
    if len(scn["nodes"]) > 1:
        bad = viol.get("node")
        if bad is not None and bad < len(scn["nodes"]):
            yield renumber(scn, [bad])
        for i in range(len(scn["nodes"])):
            yield renumber(scn, [k for k in range(len(scn["nodes"])) if k != i])
    if scn["env"]:
        s = copy.deepcopy(scn)
        s["env"] = []
        yield s
        for i in range(len(scn["env"])):
            s = copy.deepcopy(scn)
            del s["env"][i]
            yield s
    for k, nd in enumerate(scn["nodes"]):
        if nd["f"]:
            s = copy.deepcopy(scn)
            s["nodes"][k]["f"] = []
            yield s
            for i in range(len(nd["f"])):
                s = copy.deepcopy(scn)
                del s["nodes"][k]["f"][i]
                yield s
        if nd["lay"]:
            s = copy.deepcopy(scn)
            s["nodes"][k]["lay"] = 0
            yield s
    # events in the middle (a node simply runs fewer cycles and sees an earlier bit)
    for size in (8, 2, 1):
        for i in range(0, len(scn["sched"]) - size, max(size, len(scn["sched"]) // 12)):
            s = copy.deepcopy(scn)
            del s["sched"][i:i + size]
            yield s
    for k, nd in enumerate(scn["nodes"]):
        for p in sorted(nd["w"]):
            for lane, wv in enumerate(nd["w"][p]):
                for v in ("0" * len(wv), "1" * len(wv)):
                    if wv != v and wv != "1" * len(wv) and wv != "0" * len(wv):
                        s = copy.deepcopy(scn)
                        s["nodes"][k]["w"][p][lane] = v
                        yield s
    # shed unused tail of the streams
    used = [0] * len(scn["nodes"])
    for i in scn["sched"]:
        if i < len(used):
            used[i] += 1
    for k, nd in enumerate(scn["nodes"]):
        if used[k] and nd["T"] > used[k]:
            s = copy.deepcopy(scn)
            s["nodes"][k]["T"] = used[k]
            s["nodes"][k]["w"] = {p: [x[:used[k]] for x in v] for p, v in nd["w"].items()}
            s["nodes"][k]["f"] = [f for f in nd["f"] if f[0] < used[k]]
            yield s


def worldprop(benches, law=None, nodes=(1, 3), big=False):
    """gen/run pair of an ordinary model world."""
    def gen(r, tier):
        return gen_world(r, benches, nodes=nodes, big=tier == "thorough")

    def run(scn, ctx):
        run_model_world(scn, ctx, law)
    return gen, run


def shrink_ops(scn, viol, key="ops"):
    """Candidates with fewer entries in a list of operations."""
    ops = scn[key]
    n = len(ops)
    step = viol.get("step")
    if step is not None and step + 1 < n:
        s = copy.deepcopy(scn)
        s[key] = s[key][:step + 1]
        yield s
    size = max(1, n // 2)
    while size >= 1:
        for i in range(0, n, size):
            if n - min(size, n - i) < 1:
                continue
            s = copy.deepcopy(scn)
            del s[key][i:i + size]
            yield s
        size //= 2
