"""Twins: the same component fed the clean stream and the stream after link faults; the difference of ones out stays within a constant per flip."""
import copy
import math

import numpy as np

from sim import benches as B
from sim import waves as W
from sim.core import Violation
from sim.env import seed_all
from sim.world import Node, disturb, gen_env, gen_node, gen_schedule, shrink_ops

ID = "C29"
QUICK = 1200
RULE = ("Seeded pairs of one component: one clocked on the clean streams, one on the streams as link faults left them, in a seeded order with "
        "disturbances. At every cycle both have reached, the difference of ones out is at most a constant per flipped bit plus a constant; "
        "with faults that only turn zeros into ones, adders never have fewer ones out.")
REAL = ["FSUAdd, FSUHardsigmoid, Bi2Uni, Uni2Bi, SkewedSync, static FSUMul, FSULinear, FSUConv2d"]
STUB = ["bit producers (explicit waveforms)", "links (flip, burst, stuck, hold, slip, skip, swap)", "clock", "entropy at construction"]
KINDS = ["add", "add", "add", "uni2bi", "bi2uni", "hardsigmoid", "skewsync", "mul", "mul", "linear", "linear", "conv"]
PROBES = ["bench:" + k for k in sorted(set(KINDS))] + ["raise-only", "raised-cumulative", "differs", "long-run", "layer-unsaturated", "add-saturated"]
RAISING = ("add", "uni2bi", "bi2uni", "hardsigmoid")


def gen(r, tier):
    name = r.choice(KINDS)
    T = r.choice([60, 150, 300, 600] if name != "conv" else [30, 60, 120])
    if tier == "thorough":
        T *= r.choice([1, 2, 4])
    n = gen_node(r, name, T=T, faults=False)
    b = B.ALL[name]
    ports = {p: B.prod(b.pshape(n["c"], n["sh"], p)) for p in b.PORTS}
    raise_only = name in RAISING and r.random() < 0.5
    f = W.gen_faults(r, T, ports, r.choice([1, 1, 2, 3, 6]))
    if r.random() < 0.5:
        # faults early, long clean tail: an accumulated difference has time to grow
        f = [[t % max(1, T // 6)] + x for t, *x in f]
        f.sort(key=lambda e: (e[0], e[1], e[2]))
    if r.random() < 0.4:
        f = [x[:3] + ["flip", 1] for x in f]
    ops = gen_schedule(r, [T, T])
    return dict(node=n, f=f, up=raise_only, ops=ops, env=gen_env(r, len(ops), ("reseed", "draw", "gc", "peer", "mode", "grad")), gseed=r.getrandbits(31))


def out_lanes(n):
    """For every output element the flat input elements of each port it depends on."""
    b, c, sh = n.b, n.c, n.sh
    d = {}
    for k in range(b.nlanes(c, sh)):
        _, _, i, o = b.slice(c, sh, k)
        for port in o:
            for e in o[port]:
                d.setdefault(port, {})[e] = i
    return d


def bound(n, k, up, down, sat=False):
    """k: flips so far per port for one output; largest allowed |difference of ones out|."""
    name = n.n["b"]
    if name == "add":
        s, _ = n.b.resolve(n.c)
        if sat:
            # every single flip moves the output by at most one decision
            return down["in"] * math.ceil(1 / s), up["in"] * math.ceil(1 / s)
        return math.ceil(down["in"] / s), math.ceil(up["in"] / s)
    if name in ("uni2bi", "hardsigmoid"):
        return math.ceil(down["in"] / 2), math.ceil(up["in"] / 2)
    if name == "bi2uni":
        return 2 * down["in"], 2 * up["in"]
    if name == "mul":
        return k["in"], k["in"]
    if name in ("linear", "conv"):
        s = n.c["arg_scale"] if n.c["arg_scale"] is not None else n.c["scale"]
        if s is None:
            s = (n.c["i"] if name == "linear" else n.c["ci"] * B.prod(B.pair(n.c["k"]))) + (n.c["b"] is not None)
        x = math.ceil(k["in"] / s)
        return x, x
    if name == "skewsync":
        x = k["a"] + min(2 ** n.c["depth"] - 1, k["a"] + k["b"])
        return x, x
    raise KeyError(name)


def run(scn, ctx):
    seed_all(scn["gseed"])
    spec = scn["node"]
    name = spec["b"]
    layer = name in ("linear", "conv")
    model = layer or name == "add"
    nodes = [Node(spec, None, reference=model)]
    f = dict(spec, f=scn["f"])
    nodes.append(Node(f, ctx, reference=model))
    sat = False
    if scn["up"]:
        for p in nodes[1].x:
            nodes[1].x[p] = np.maximum(nodes[1].x[p], nodes[0].x[p])
        ctx.probe("raise-only")
    ctx.probe("bench:" + name)
    T = spec["T"]
    dep = out_lanes(nodes[0])
    diff = {p: nodes[1].x[p] - nodes[0].x[p] for p in nodes[0].x}
    kup = {p: np.cumsum(d > 0, 0) for p, d in diff.items()}
    kdn = {p: np.cumsum(d < 0, 0) for p, d in diff.items()}
    cum = [[], []]
    env = {}
    for g, op, arg in scn["env"]:
        env.setdefault(g, []).append((op, arg))
    memo = {}
    for g, i in enumerate(scn["ops"]):
        x = nodes[i]
        if x.t >= T:
            continue
        ctx.info.update(step=g, node=i)
        for op, arg in env.get(g, ()):
            disturb(op, arg, ctx)
        if name == "add":
            x.step_ref(x.t)
            if x.ref.sat and not sat:
                sat = True
                memo = {}
                ctx.probe("add-saturated")
        if layer:
            # a saturating accumulator forgets value: the bound is claimed up to there
            x.step_ref(x.t)
            if x.ref.add.sat:
                ctx.probe("layer-saturated")
                break
        got = {o: a.reshape(-1) for o, a in x.observe(x.step_dut()).items()}
        ctx.cycles += 1
        if cum[i]:
            got = {o: a + cum[i][-1][o] for o, a in got.items()}
        cum[i].append(got)
        t = min(len(cum[0]), len(cum[1])) - 1
        if t < 0 or len(cum[i]) - 1 != t:
            continue
        ctx.log(t, [a.sum() for _, a in sorted(got.items())])
        for o in sorted(dep):
            if o == "o2":
                continue
            d = cum[1][t][o] - cum[0][t][o]
            if not d.any() and not scn["up"]:
                continue
            ctx.probe("differs", int(d.any()))
            for e, lanes in dep[o].items():
                up = {p: int(kup[p][t][lanes[p]].sum()) for p in lanes}
                dn = {p: int(kdn[p][t][lanes[p]].sum()) for p in lanes}
                key = (tuple(sorted(up.items())), tuple(sorted(dn.items())))
                if key not in memo:
                    memo[key] = bound(x, {p: up[p] + dn[p] for p in up}, up, dn, sat)
                lo, hi = memo[key]
                if not -lo <= d[e] <= hi:
                    raise Violation("amplified", "%s.%s element %d at cycle %d: %s ones raised and %s lowered at the inputs changed the ones out "
                                    "by %+d, allowed %+d..%+d" % (name, o, e, t, up, dn, d[e], -lo, hi))
        if scn["up"] and any(a[t].any() for a in kup.values()):
            ctx.probe("raised-cumulative")
    if layer and nodes[0].t == T:
        ctx.probe("layer-unsaturated")
    if T >= 300:
        ctx.probe("long-run")


def shrink(scn, viol):
    if scn["env"]:
        yield dict(scn, env=[])
    for k in range(len(scn["f"])):
        s = copy.deepcopy(scn)
        del s["f"][k]
        yield s
    for s in shrink_ops(scn, viol):
        s["env"] = []
        yield s
