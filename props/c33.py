"""Recovery: a twin that saw link faults equals the twin that never did, once the clean stream has flushed its registers."""
import copy
import math

import numpy as np

from sim import benches as B
from sim import waves as W
from sim.core import Violation
from sim.env import seed_all
from sim.world import Node, disturb, gen_env, gen_schedule, shrink_ops

ID = "C33"
QUICK = 2400
RULE = ("Seeded pairs of one finite-memory component, one of them behind links that fail during one to three seeded windows; after each window the "
        "clean streams flush the registers for exactly the stated time, then carry arbitrary data; from there to the next window both twins must "
        "deliver the same bits at every cycle.")
REAL = ["ShiftReg, CORDIV_kernel, Bi2Uni, SkewedSync, FSUAdd, FSUReLU, FSUSignAbs, JKFF, FSUHardtanh, and FSULinear with a temporal source"]
STUB = ["bit producers (explicit waveforms)", "links (flip, burst, stuck, hold, slip, skip, swap inside the windows)", "clock", "entropy at construction"]
KINDS = ["shiftreg", "shiftreg", "cordiv", "cordiv", "bi2uni", "skewsync", "add", "add", "relu", "signabs", "jkff", "hardtanh", "linear"]
PROBES = ["bench:" + k for k in sorted(set(KINDS))] + ["differed", "recovered", "windows:3", "flush-up", "flush-down"]


def gen(r, tier):
    name = r.choice(KINDS)
    b = B.ALL[name]
    while True:
        c, sh = b.gen(r)
        if name == "add":
            c["depth"] = r.choice([4, 5, 6])
            c["arg_scale"] = c["arg_entry"] = None
            c["scale"] = r.choice([1, 1, 2, 0.5, 1.5, None])
        if name == "linear":
            c["depth"] = r.choice([4, 5, 6])
            c["rng"] = r.choice(B.TEMPORAL)
            c["mode"] = "unipolar"
            c["scale"], c["arg_scale"] = r.choice([0.5, 1, 1.5]), None
            # every weight is on for all but at most one cycle of each period
            c["w"] = [[2 ** c["width"] for _ in x] for x in c["w"]]
            c["b"] = None
        if name in ("relu", "signabs") and c["depth"] > 6:
            c["depth"] = 5
        if flushes(name, c):
            break
    how = r.choice(flushes(name, c))
    if how == "fall" and name == "add" and c["bt"][0] == "i":
        c["bt"] = "f32"
    ports = {p: B.prod(b.pshape(c, sh, p)) for p in b.PORTS}
    w = {p: [""] * n for p, n in ports.items()}
    f, clean = [], []
    t = 0

    def extend(n, const=None):
        nonlocal t
        if n < 1:
            return
        for p in ports:
            x = W.waves(r, n, ports[p]) if const is None or p not in const else [str(const[p]) * n] * ports[p]
            w[p] = [a + y for a, y in zip(w[p], x)]
        t += n

    extend(r.choice([0, 3, 20]))
    for _ in range(r.choice([1, 1, 2, 3])):
        n = r.choice([2, 10, 40])
        for x in W.gen_faults(r, n, ports, r.choice([1, 2, 4, 8])):
            # a fault lasts at most to the end of its window
            k = "burst" if x[3] in ("slip", "skip") else x[3]
            f.append([t + x[0], x[1], x[2], k, min(x[4], n - x[0])])
        extend(n)
        start = t
        if r.random() < 0.3:
            extend(r.choice([1, 5, 15]))
        if how:
            extend(length(name, c), const(name, how))
        else:
            extend(r.choice([2, 4, 8]) * c["entry"])
        clean.append([start, t])
        extend(r.choice([10, 30, 80]))
    ops = gen_schedule(r, [t, t])
    n = dict(b=name, c=c, sh=sh, key=r.getrandbits(32), T=t, lay=r.choice([0, 0, 1, 2]), w=w, f=[])
    return dict(node=n, f=sorted(f), how=how, clean=clean, ops=ops, env=gen_env(r, len(ops), ("reseed", "draw", "gc", "peer", "mode", "grad")), gseed=r.getrandbits(31))


def drift(c):
    """Change of the adder's register per cycle for all-zero and for all-one inputs."""
    n = c["n"]
    e = n if c["entry"] is None else c["entry"]
    s = e if c["scale"] is None else c["scale"]
    off = (e - s) / 2 if c["mode"].lower() == "bipolar" else 0
    return -off, n - off - s


def flushes(name, c):
    if name in ("shiftreg", "cordiv"):
        return [None]
    if name in ("bi2uni",):
        return ["fall"]
    if name in ("relu",):
        return ["rise"]
    if name == "add":
        lo, hi = drift(c)
        return (["fall"] if lo < 0 else []) + (["rise"] if hi > 0 else [])
    if name == "linear":
        return ["rise"] if c["i"] > c["scale"] else []
    return ["rise", "fall"]


def length(name, c):
    """Cycles of flushing after which the stated range has been crossed."""
    if name == "bi2uni":
        return 2 * 2 ** (c["depth"] - 2)
    if name == "skewsync":
        return 2 ** c["depth"] - 1
    if name in ("relu", "signabs"):
        return 2 ** c["depth"] - 1
    if name in ("jkff", "hardtanh"):
        return 1
    if name == "add":
        lo, hi = drift(c)
        d = min(abs(x) for x in (lo, hi) if x) if lo and hi > 0 else (abs(lo) or hi)
        return math.ceil(2 * 2 ** (c["depth"] - 2) / d) + 2
    if name == "linear":
        return math.ceil(2 * 2 ** (c["depth"] - 2) / (c["i"] - c["scale"])) + 2
    raise KeyError(name)


def const(name, how):
    up = how == "rise"
    if name == "skewsync":
        return {"a": int(up), "b": int(not up)}
    if name == "jkff":
        return {"j": int(up), "k": int(not up)}
    return {"in": int(up)}


def run(scn, ctx):
    seed_all(scn["gseed"])
    spec = scn["node"]
    name, c = spec["b"], spec["c"]
    nodes = [Node(spec, None, reference=False), Node(dict(spec, f=scn["f"]), ctx, reference=False)]
    ctx.probe("bench:" + name)
    if len(scn["clean"]) == 3:
        ctx.probe("windows:3")
    if scn["how"]:
        ctx.probe("flush-up" if scn["how"] == "rise" else "flush-down")
    T = spec["T"]
    x0, x1 = nodes[0].x, nodes[1].x
    dirty = np.zeros(T, bool)
    for p in x0:
        dirty |= (x0[p] != x1[p]).any(1)
    # per cycle: which flat output lanes must agree
    if scn["how"]:
        judged = np.zeros(T, bool)
        for start, done in scn["clean"]:
            judged[done:] = True
            later = [s for s, _ in scn["clean"] if s > start]
            d = np.nonzero(dirty[start:])[0]
            if len(d):
                judged[start + d[0]:] = False
        first = np.nonzero(dirty)[0]
        judged[:first[0] if len(first) else T] = True
        judged = judged[:, None]
    else:
        # registers: count the clean accepted bits since the last faulty cycle of the lane
        acc = x0["mask"] if name == "shiftreg" and c["masked"] else x0["b"] if name == "cordiv" else np.ones_like(x0["in"])
        bad = np.zeros(acc.shape, bool)
        for p in x0:
            if name == "shiftreg" and p == "mask" and not c["masked"]:
                continue
            bad |= x0[p] != x1[p]
        judged = np.zeros(acc.shape, bool)
        have = np.full(acc.shape[1], c["entry"])
        for t in range(T):
            # the outputs of this cycle: what was accepted before it, and its own clean inputs
            judged[t] = (have >= c["entry"]) & ~bad[t]
            have = np.where(bad[t], 0, have + acc[t])
    hist = [[], []]
    env = {}
    for g, op, arg in scn["env"]:
        env.setdefault(g, []).append((op, arg))
    away = False
    for g, i in enumerate(scn["ops"]):
        n = nodes[i]
        if n.t >= T:
            continue
        ctx.info.update(step=g, node=i)
        for op, arg in env.get(g, ()):
            disturb(op, arg, ctx)
        hist[i].append({o: a.reshape(-1) for o, a in n.observe(n.step_dut()).items()})
        ctx.cycles += 1
        t = min(len(hist[0]), len(hist[1])) - 1
        if len(hist[i]) - 1 != t:
            continue
        a, b = hist[0][t], hist[1][t]
        for o in sorted(a):
            d = a[o] != b[o]
            if d.any():
                ctx.probe("differed")
                away = True
            j = np.broadcast_to(judged[t], d.shape) if judged.shape[1] in (1, d.size) else np.full(d.shape, judged[t].all())
            if (d & j).any():
                k = int(np.nonzero(d & j)[0][0])
                raise Violation("not-recovered", "%s.%s element %d at cycle %d differs from the run without faults (%g, not %g); last fault at cycle %d, "
                                "flushed before" % (name, o, k, t, b[o][k], a[o][k], max([x for x in np.nonzero(dirty)[0] if x < t], default=-1)))
        if away and judged[t].all():
            ctx.probe("recovered")
            away = False
        ctx.log(t, [v.sum() for _, v in sorted(b.items())])


def shrink(scn, viol):
    if scn["env"]:
        yield dict(scn, env=[])
    for k in range(len(scn["f"])):
        s = copy.deepcopy(scn)
        del s["f"][k]
        yield s
    step = viol.get("step")
    if step is not None and step + 1 < len(scn["ops"]):
        yield dict(copy.deepcopy(scn), ops=scn["ops"][:step + 1], env=[])
    done = [i for i in scn["ops"]]
    m = max(done.count(0), done.count(1))
    for q in (m // 2, m - m // 4, m - 1):
        yield dict(copy.deepcopy(scn), ops=[0, 1] * q, env=[])
