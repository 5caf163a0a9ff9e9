"""Batching: a tensor of lanes against its lanes alone; faults strike one lane only."""
import copy

import numpy as np
import torch

from sim import benches as B
from sim import waves as W
from sim.core import Violation
from sim.env import seed_all
from sim.world import Node, disturb, gen_env, gen_node, gen_schedule, shrink_ops

ID = "C24"
QUICK = 2500
RULE = ("Seeded worlds: one component on a tensor of lanes (seeded shape, memory layout, batch), the same component on several of those "
        "lanes alone and on a rearranged batch, clocked in a seeded order; link faults, stuck-at lanes and saturation hit one lane only.")
REAL = ["every streaming kernel, converter, generator and the element-wise monitors"]
STUB = ["random draws during construction (simulated entropy, the same for batch and lane)", "bit producers", "clock"]
PROBES = ["quiet-neighbour", "rearranged", "layout:1", "layout:2", "batch"]
BENCHES = [b for b in B.KERNELS if b not in ("linearpc", "linear", "convpc", "conv", "mgu")] * 2 + [
    "linearpc", "linear", "convpc", "conv", "mgu", "progerr", "stability"]


def gen(r, tier):
    for _ in range(40):
        n = gen_node(r, r.choice(BENCHES), T=r.choice([12, 40, 90]), faults=False)
        b = B.ALL[n["b"]]
        N = b.nlanes(n["c"], n["sh"])
        if N > 1:
            break
    n["lay"] = r.choice([0, 1, 2])
    hit = r.randrange(N)
    lanes = b.slice(n["c"], n["sh"], hit)[2]
    ports = {p: len(v) for p, v in lanes.items()}
    f = []
    if ports:
        # faults inside one lane: strike its own flat inputs, never swap with others
        for t, p, k, kind, ln in W.gen_faults(r, n["T"], ports, r.choice([1, 2, 4])):
            f.append([t, p, lanes[p][k], kind if kind != "swap" else "burst", ln])
        if r.random() < 0.4:
            p = r.choice(sorted(ports))
            f.append([r.randrange(n["T"]), p, r.choice(lanes[p]), r.choice(["stuck0", "stuck1"]), n["T"]])
    n["f"] = sorted(f)
    alone = r.sample(range(N), min(N, r.choice([1, 2, 3])))
    m = 1 + len(alone)
    perm = None
    if b.ELEMENTWISE and n["b"] not in ("add",) and r.random() < 0.6:
        perm = list(range(N))
        r.shuffle(perm)
        m += 1
    sched = gen_schedule(r, [n["T"]] * m)
    return dict(node=n, hit=hit, alone=alone, perm=perm, psh=r.choice(shapes(N)), ops=sched,
                env=gen_env(r, len(sched), ("reseed", "draw", "gc", "peer", "mode", "grad")), gseed=r.getrandbits(31))


def shapes(n):
    out = [[n], [1, n], [n, 1], [n, 1, 1], [1, n, 1]]
    for a in range(2, n):
        if n % a == 0:
            out += [[a, n // a], [a, 1, n // a]]
    return out


def per_lane(c, perm):
    """Configuration with its per-lane values rearranged."""
    c = copy.deepcopy(c)
    for k in ("b", "jit", "src"):
        if isinstance(c.get(k), list):
            c[k] = [c[k][i] for i in perm]
    if "cyc" in c:
        c["cyc"] = [[y[i] for i in perm] for y in c["cyc"]]
    return c


def run(scn, ctx):
    seed_all(scn["gseed"])
    n = scn["node"]
    batch = Node(n, ctx, reference=False)
    b, N = batch.b, batch.b.nlanes(n["c"], n["sh"])
    ctx.probe("layout:%d" % n["lay"])
    ctx.probe("batch")
    nodes = [(batch, None, "batch")]
    for k in scn["alone"]:
        c, sh, ins, outs = b.slice(n["c"], n["sh"], k)
        s = dict(b=n["b"], c=c, sh=sh, key=n["key"], T=n["T"], lay=0, w={}, f=[])
        one = Node(s, ctx, reference=False)
        one.x = {p: batch.x[p][:, ins[p]] for p in b.PORTS}
        nodes.append((one, outs, "lane %d alone" % k))
        if k != scn["hit"]:
            ctx.probe("quiet-neighbour")
    if scn["perm"] is not None:
        p = scn["perm"]
        c = per_lane(n["c"], p)
        if "bsh" in c:
            c["bsh"] = scn["psh"]
        s = dict(b=n["b"], c=c, sh=scn["psh"], key=n["key"], T=n["T"], lay=0, w={}, f=[])
        two = Node(s, ctx, reference=False)
        two.x = {q: batch.x[q][:, p] for q in b.PORTS}
        nodes.append((two, {o: p for o in b.outs(n["c"])}, "lanes rearranged"))
        ctx.probe("rearranged")
    hist = [[] for _ in nodes]
    env = {}
    for g, op, arg in scn["env"]:
        env.setdefault(g, []).append((op, arg))
    for g, i in enumerate(scn["ops"]):
        if i >= len(nodes) or nodes[i][0].t >= n["T"]:
            continue
        ctx.info.update(step=g, node=i)
        for op, arg in env.get(g, ()):
            disturb(op, arg, ctx)
        x, outs, what = nodes[i]
        t = x.t
        out = x.step_dut()
        ctx.cycles += 1
        got = {}
        for o in sorted(out):
            if not isinstance(out[o], torch.Tensor):
                raise Violation("bad-output", "%s of %s is not a tensor" % (o, n["b"]))
            got[o] = out[o].detach().double().numpy().copy()
        hist[i].append(got)
        # whoever comes second is compared with whoever was there first
        for j in ([0] if i else range(1, len(nodes))):
            if len(hist[j]) <= t or len(hist[i]) <= t:
                continue
            judge(ctx, b, n, t, hist[0][t], *((nodes[i], hist[i][t]) if i else (nodes[j], hist[j][t])))
        ctx.log(i, t, [got[o].sum().item() for o in sorted(got)])


def judge(ctx, b, n, t, whole, who, part):
    node, outs, what = who
    for o in sorted(part):
        w = whole[o].reshape(-1)
        idx = outs[o]
        if w.size <= max(idx):
            raise Violation("bad-shape", "%s.%s has %d elements, lane %d expected" % (n["b"], o, w.size, max(idx)))
        w = w[idx]
        p = part[o].reshape(-1)
        if p.shape != w.shape:
            raise Violation("bad-shape", "%s.%s of %s has %d elements, expected %d" % (n["b"], o, what, p.size, w.size))
        if n["b"] in ("progerr", "stability"):
            bad = ~(np.abs(w - p) <= 1e-5)
        else:
            bad = w != p
        if bad.any():
            k = int(np.nonzero(bad)[0][0])
            raise Violation("lane-differs", "%s.%s at its cycle %d: element %d is %r in the batch and %r in '%s'" % (
                n["b"], o, t, idx[k], float(w[k]), float(p[k]), what))


def shrink(scn, viol):
    if scn["env"]:
        yield dict(scn, env=[])
    if scn["perm"] is not None:
        yield dict(scn, perm=None)
    for k in range(len(scn["alone"])):
        s = copy.deepcopy(scn)
        del s["alone"][k]
        yield s
    n = scn["node"]
    for i in range(len(n["f"])):
        s = copy.deepcopy(scn)
        del s["node"]["f"][i]
        yield s
    if n["lay"]:
        s = copy.deepcopy(scn)
        s["node"]["lay"] = 0
        yield s
    for s in shrink_ops(scn, viol):
        s["env"] = []
        yield s
