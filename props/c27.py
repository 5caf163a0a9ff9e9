"""Element types and shapes: a swarm of types against the same world in single precision."""
import copy

import numpy as np
import torch

from sim import benches as B
from sim.core import Violation
from sim.env import seed_all
from sim.world import Node, disturb, gen_env, gen_node, gen_schedule, shrink_ops

ID = "C27"
QUICK = 2500
RULE = ("Seeded worlds of one component in 2-3 versions: single precision on a flat tensor, and versions with seeded stream/buffer/number "
        "element types and tensor shapes, clocked in a seeded order over the same faulted streams; every output is checked for bits, type "
        "and shape, and all versions must deliver the same bits.")
REAL = ["every streaming kernel, converter and generator"]
STUB = ["random draws during construction (simulated entropy)", "bit producers", "clock"]
ALLT = ["f32", "f64", "i8", "i16", "i32", "i64"]
PROBES = ["st:" + t for t in ALLT] + ["bt:" + t for t in ("f64", "i16", "i32", "i64")] + ["dims:1", "dims:2", "dims:3", "in:other"]
EL = [b for b in B.KERNELS if B.ALL[b].STREAM and B.ALL[b].ELEMENTWISE]
FIX = ["linear", "conv", "mgu"]
# these convert whatever element type the incoming stream has
CONVERT = ["add", "mul", "mulis", "hardsigmoid", "sqrt", "cordiv", "bi2uni", "uni2bi", "relu", "jkff", "signabs"]


def fits(c, bt, b):
    """Whether registers of this type can hold what the component keeps in them."""
    if bt != "i16":
        return True
    return all(c.get(k, 0) <= 12 for k in ("depth", "depth_sa", "depth_ss", "width"))


def gen(r, tier):
    name = r.choice(EL * 3 + FIX)
    n = gen_node(r, name, T=r.choice([20, 60, 120]))
    b = B.ALL[name]
    N = b.nlanes(n["c"], n["sh"])
    vers = []
    for _ in range(r.choice([1, 2])):
        v = dict(st=r.choice(ALLT), bt=r.choice(["f32", "f64", "i16", "i32", "i64"]), rt=r.choice(["f32", "f64", "i64", "i32"]),
                 sh=r.choice(shapes(N)), lay=r.choice([0, 1, 2]))
        if name in CONVERT and r.random() < 0.35:
            v["in"] = r.choice(ALLT)
        frac = name == "add" and n["c"]["mode"].lower() == "bipolar" or any(
            x is not None and x != int(x) for x in (n["c"].get("scale"), n["c"].get("arg_scale")))
        if frac and v["bt"][0] == "i":
            v["bt"] = "f64"
        if not fits(n["c"], v["bt"], b):
            v["bt"] = "i32"
        if name in FIX or name == "add":
            v["sh"] = None
        vers.append(v)
    sched = gen_schedule(r, [n["T"]] * (1 + len(vers)))
    return dict(node=n, vers=vers, ops=sched, env=gen_env(r, len(sched), ("reseed", "draw", "gc", "peer", "mode", "grad")), gseed=r.getrandbits(31))


def shapes(n):
    out = [[n], [1, n], [n, 1], [n, 1, 1], [1, 1, n]]
    for a in range(2, n):
        if n % a == 0:
            out.append([a, n // a])
    return out


def version(n, v):
    n = copy.deepcopy(n)
    c = n["c"]
    if v is None:
        for k in ("st", "bt", "rt"):
            if k in c:
                c[k] = "f32"
        n["lay"] = 0
        return n
    for k in ("st", "bt", "rt"):
        if k in c:
            c[k] = v[k]
    if v["sh"] is not None:
        n["sh"] = v["sh"]
        if "bsh" in c:
            c["bsh"] = v["sh"]
    n["lay"] = v["lay"]
    return n


def run(scn, ctx):
    seed_all(scn["gseed"])
    n = scn["node"]
    nodes = []
    for i, v in enumerate([None] + scn["vers"]):
        ctx.info["node"] = i
        x = Node(version(n, v), ctx if v is None else None, reference=False)
        if v is not None and v.get("in"):
            x.in_dt = v["in"]
            ctx.probe("in:other" if v["in"] != v["st"] else "in:same")
        nodes.append(x)
        if v is not None:
            if "st" in n["c"]:
                ctx.probe("st:" + v["st"])
            if "bt" in n["c"]:
                ctx.probe("bt:" + v["bt"])
            ctx.probe("dims:%d" % len(x.sh))
            ctx.fault("type-or-shape-variant")
    hist = [[] for _ in nodes]
    env = {}
    for g, op, arg in scn["env"]:
        env.setdefault(g, []).append((op, arg))
    for g, i in enumerate(scn["ops"]):
        if i >= len(nodes) or nodes[i].t >= n["T"]:
            continue
        ctx.info.update(step=g, node=i)
        for op, arg in env.get(g, ()):
            disturb(op, arg, ctx)
        x = nodes[i]
        t = x.t
        out = x.step_dut()
        ctx.cycles += 1
        got = x.observe(out, dtype=True)
        h = {o: a.reshape(-1) for o, a in got.items()}
        hist[i].append(h)
        for j in ([0] if i else range(1, len(nodes))):
            if len(hist[j]) <= t:
                continue
            for o in sorted(h):
                a, b = hist[j][t][o], h[o]
                if a.shape != b.shape or (a != b).any():
                    k = int(np.nonzero(a != b)[0][0]) if a.shape == b.shape else -1
                    v = scn["vers"][(i or j) - 1]
                    raise Violation("type-dependent", "%s.%s at its cycle %d, element %d: stream type %s, buffer type %s, input type %s, shape %s "
                                    "give other bits than single precision on %s" % (n["b"], o, t, k, v["st"], v["bt"], v.get("in") or v["st"], v["sh"], n["sh"]))
        ctx.log(i, t, [a.sum() for _, a in sorted(h.items())])


def shrink(scn, viol):
    if scn["env"]:
        yield dict(scn, env=[])
    for k in range(len(scn["vers"])):
        if len(scn["vers"]) > 1:
            s = copy.deepcopy(scn)
            del s["vers"][k]
            yield s
    for k, v in enumerate(scn["vers"]):
        if v.get("in"):
            s = copy.deepcopy(scn)
            s["vers"][k]["in"] = None
            yield s
        for f, d in (("st", "f32"), ("bt", "f32"), ("rt", "f32"), ("lay", 0), ("sh", None)):
            if v[f] != d:
                s = copy.deepcopy(scn)
                s["vers"][k][f] = d
                yield s
    if scn["node"]["f"]:
        s = copy.deepcopy(scn)
        s["node"]["f"] = []
        yield s
    for s in shrink_ops(scn, viol):
        s["env"] = []
        yield s
