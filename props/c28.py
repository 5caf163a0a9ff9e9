"""End to end: real encoders, one real kernel, a real decoder; the decoded value is the ideal one within a bound that shrinks with the length."""
import copy
import os

import numpy as np
import torch

from sim import benches as B
from sim.core import Violation
from sim.env import seed_all
from sim.world import disturb, gen_env

ID = "C28"
QUICK = 1600
CHUNK = 4
RULE = ("Seeded pipelines: values encoded by BinGen/RNG/BSGen from independent Sobol dimensions at seeded phase offsets per operand lane, "
        "bounded stalls of the producers at seeded cycles, one kernel, decoded by ProgError and by counting at the end of every period; the "
        "error is compared with a per-kernel bound that shrinks with the stream length.")
REAL = ["RNG, BinGen, BSGen", "every arithmetic kernel", "ProgError"]
STUB = ["clock", "operand producers' stalls (the producer holds its last bit)", "random draws during construction"]
TASKS = ["add", "add", "uni2bi", "bi2uni", "hardsigmoid", "mul", "mul", "mulis", "linear", "linear", "conv", "relu", "signabs", "div", "sqrt", "skewsync",
         "chain"]
PROBES = ["task:" + t for t in sorted(set(TASKS))] + ["stalled", "phase-offset", "three-periods", "clipped"]
MEAN = ("div", "sqrt")       # allowed mean error of 24 lanes at unrelated phases


def mean_bound(scn):
    if scn["task"] == "div":
        return 0.075
    if scn["mode"] == "bipolar":
        return 0.06
    return 0.25 if scn["c"]["jk"] and not scn["c"]["emit"] else 0.12


CALIB = os.environ.get("C28_CALIB")


def lens(c, sh, b):
    return {p: B.prod(b.pshape(c, sh, p)) for p in b.PORTS}


def gen(r, tier):
    task = r.choice(TASKS)
    w = r.choice([5, 6, 6, 7, 7, 8])
    n = 2 ** w
    P = r.choice([1, 2, 3, 4]) if w < 8 or tier == "thorough" else r.choice([1, 2])
    if tier == "thorough":
        P *= r.choice([1, 2, 3])
    name = "linear" if task == "chain" else task
    b = B.ALL[name]
    c, sh = b.gen(r)
    if name in MEAN:
        sh = [24]
    for k, v in (("st", "f32"), ("bt", "f32"), ("rt", "f32")):
        if k in c:
            c[k] = v
    mode = r.choice(["unipolar", "bipolar"])
    if "mode" in c:
        c["mode"] = mode
    if "rng" in c:
        c["rng"] = "Sobol"
    for k in ("arg_scale", "arg_entry", "entry"):
        if k in c and name != "div":
            c[k] = None
    if "width" in c:
        c["width"] = w
    lo, hi = 0, n
    if name == "add":
        c["depth"] = 12
        c["scale"] = r.choice([None, 1, 1, 2, c["n"]])
    elif name in ("linear", "conv"):
        c["depth"] = 12
        c["dimr"] = r.choice([2, 3])
        c["w"] = [[r.randint(0, n) for _ in x] for x in c["w"]]
        if c["b"] is not None:
            c["b"] = [r.randint(0, n) for _ in c["b"]]
        c["scale"] = r.choice([None, None, 1, 1, 2])
    elif name == "mul":
        c["dimr"] = r.choice([1, 2, 3])
        c["b"] = [r.choice([0, n, n // 2, r.randint(0, n)]) for _ in c["b"]]
    elif name == "mulis":
        c["dimr"] = 3
    elif name in ("bi2uni", "hardsigmoid"):
        c["depth"] = r.choice([8, 9, 10])
    elif name == "relu":
        c["depth"] = r.choice([6, 7, 8])
        mode = "bipolar"
    elif name == "signabs":
        c["depth"] = r.choice([4, 5])
        mode = "bipolar"
    elif name == "div":
        c.update(depth_sa=r.choice([3, 4]), depth_ss=r.choice([2, 3]), entry=r.choice([2, 4]), dimr=4)
    elif name == "sqrt":
        c.update(entry_kn=2, entry_sr=r.choice([2, 4]), dimr=4)
    ports = lens(c, sh, b)
    v = {p: [r.choice([lo, hi, n // 2, r.randint(lo, hi), r.randint(lo, hi), r.randint(lo, hi)]) for _ in range(k)] for p, k in ports.items()}
    if name == "signabs":
        v = {p: [r.choice([r.randint(0, n // 4), r.randint(3 * n // 4, n)]) for _ in x] for p, x in v.items()}
    if name == "sqrt":
        v = {p: [r.randint(n // 8, n) if mode == "unipolar" else r.randint(9 * n // 16, n) for _ in x] for p, x in v.items()}
    if name == "div":
        k = len(v["a"])
        if mode == "unipolar":
            v["b"] = [r.randint(n // 3, n) for _ in range(k)]
            v["a"] = [r.randint(0, x) for x in v["b"]]
        else:
            d = [r.randint(n // 6, n // 2) for _ in range(k)]
            q = [r.randint(n // 16, x) for x in d]
            v["b"] = [n // 2 + r.choice([-1, 1]) * x for x in d]
            v["a"] = [n // 2 + r.choice([-1, 1]) * x for x in q]
    ph = {p: [r.randrange(n) for _ in range(k)] if name in MEAN else
          [r.choice([0, 0, r.randrange(n), r.randrange(5 * n)])] * k if r.random() < 0.5 else [r.randrange(n) for _ in range(k)]
          for p, k in ports.items()}
    stalls = []
    if r.random() < 0.5:
        for _ in range(r.choice([1, 1, 2, 4])):
            stalls.append([r.choice(sorted(ports)), r.randrange(1, n * P), r.choice([1, 2, 3, 8])])
    chain = None
    if task == "chain":
        chain = dict(task=r.choice(["relu", "hardsigmoid", "add"]), depth=8)
        c["mode"] = mode = "bipolar" if chain["task"] == "relu" else mode
        c["scale"] = None
    T = n * P + sum(s[2] for s in stalls)
    return dict(task=task, mode=mode, w=w, P=P, c=c, sh=sh, v=v, ph=ph, stalls=stalls, dims={p: i + 1 for i, p in enumerate(sorted(ports))},
                key=r.getrandbits(32), chain=chain, env=gen_env(r, T, ("reseed", "draw", "gc", "peer", "mode", "grad")), gseed=r.getrandbits(31))


def prob(v, scn):
    return np.asarray(v, float) / 2 ** scn["w"]


def val(p, mode):
    return p if mode == "unipolar" else 2 * p - 1


def unval(x, mode):
    return x if mode == "unipolar" else (x + 1) / 2


def slack(scn):
    """Largest excess or lack of ones in any window of one encoder or static weight source."""
    return scn["w"] / 2 + 1


def ideal(scn):
    """(ideal probability of a one, allowed error in ones for n cycles: a + f * n, ones per stalled bit)"""
    t, mode, c, sh = scn["task"], scn["mode"], scn["c"], scn["sh"]
    b = B.ALL["linear" if t == "chain" else t]
    p = {k: prob(x, scn).reshape(b.pshape(c, sh, k)) for k, x in scn["v"].items()}
    d = slack(scn)
    n = 2 ** scn["w"]
    clip = lambda x: np.clip(x, 0, 1)  # noqa: E731
    if t == "add":
        s = c["n"] if c["scale"] is None else c["scale"]
        off = (c["n"] - s) / 2 if mode == "bipolar" else 0
        return clip((p["in"].sum(c["dima"]) - off) / s), c["n"] / s + 1, 0, c["n"] / s
    if t == "uni2bi":
        return (1 + p["in"]) / 2, 1, 0, 0.5
    if t == "hardsigmoid":
        return (1 + p["in"]) / 2, 1, 0, 0.5
    if t == "bi2uni":
        return clip(2 * p["in"] - 1), 4, 0, 2
    if t == "skewsync":
        return p["a"], 2 ** c["depth"], 0, 1
    if t == "mul":
        q = prob(c["b"], scn).reshape(sh)
        if mode == "unipolar":
            return p["in"] * q, d, 0, 1
        return p["in"] * q + (1 - p["in"]) * (1 - q), d + 1, 0, 2
    if t == "mulis":
        q = p["in1"]
        # the first period fills the register from its alternating contents
        if mode == "unipolar":
            return p["in"] * q, d + 1 + n / 4, 0, 2
        return p["in"] * q + (1 - p["in"]) * (1 - q), d + 2 + n / 4, 0, 3
    if t in ("linear", "conv", "chain"):
        q = prob(c["w"], scn)
        bias = None if c["b"] is None else prob(c["b"], scn)
        m = q.shape[1] + (bias is not None)
        s = m if c["scale"] is None else c["scale"]
        off = (m - s) / 2 if mode == "bipolar" else 0
        x = p["in"]
        if t == "conv":
            from sim.models import fold, patches
            rows, (oh, ow) = patches(x, B.pair(c["k"]), B.pair(c["s"]), B.pair(c["p"]), B.pair(c["d"]), 0.5 if mode == "bipolar" else 0)
        else:
            rows = x
        y = rows @ q.T
        if mode == "bipolar":
            y = y + (1 - rows) @ (1 - q).T
        if bias is not None:
            y = y + bias
        e = 2 + 1.5 * m / s
        y = clip((y - off) / s)
        if t == "conv":
            y = fold(y, x.shape[0], oh, ow)
        if t == "chain":
            k = scn["chain"]["task"]
            if k == "relu":
                return np.maximum(y, 0.5), e + 3, 0, 2 * q.shape[1] * 2 / s + 2
            if k == "hardsigmoid":
                return (1 + y) / 2, e / 2 + 1, 0, q.shape[1] / s + 1
            # the sum of the layer's outputs, scaled
            return y.mean(-1, keepdims=True), e + 1, 0, q.shape[1] * 2 / s + 1
        return y, e, 0, q.shape[1] * (1 if mode == "unipolar" else 2) / s + 1
    if t == "relu":
        return np.maximum(p["in"], 0.5), 3, 0, 2
    if t == "signabs":
        return np.maximum(p["in"], 1 - p["in"]), 4, 0, 2
    if t == "div":
        if mode == "unipolar":
            return p["a"] / p["b"], 20, 0.25, 4
        return (1 + (2 * p["a"] - 1) / (2 * p["b"] - 1)) / 2, 24, 0.3, 6
    if t == "sqrt":
        if mode == "unipolar":
            return np.sqrt(p["in"]), 24, 0.35, 4
        return (1 + np.sqrt(2 * p["in"] - 1)) / 2, 24, 0.3, 4
    raise KeyError(t)


def run(scn, ctx):
    from UnarySim.metric.metric import ProgError
    from UnarySim.stream import RNG, BinGen, BSGen
    seed_all(scn["gseed"])
    t, mode, c, sh = scn["task"], scn["mode"], scn["c"], scn["sh"]
    name = "linear" if t == "chain" else t
    b = B.ALL[name]
    ctx.probe("task:" + t)
    n = 2 ** scn["w"]
    m, _ = b.build(copy.deepcopy(c), sh, scn["key"])
    gens, ps, idx, hold = {}, {}, {}, {}
    for p in b.PORTS:
        if t == "shiftreg":
            continue
        ps[p] = list(b.pshape(c, sh, p))
        x = torch.tensor(val(prob(scn["v"][p], scn), mode), dtype=torch.float).reshape(ps[p])
        hw = {"width": scn["w"], "mode": mode, "rng": "Sobol", "dimr": scn["dims"][p]}
        sw = {"stype": torch.float, "rtype": torch.float}
        gens[p] = BSGen(BinGen(x, hw, sw)(), RNG(hw, sw)(), sw)
        idx[p] = torch.tensor(scn["ph"][p]).reshape(ps[p])
        if any(scn["ph"][p]):
            ctx.probe("phase-offset")
            ctx.fault("phase-offset")
    want, a, f, lip = ideal(scn)
    if ((want == 0) | (want == 1)).any():
        ctx.probe("clipped")
    omode = {"uni2bi": "bipolar", "bi2uni": "unipolar"}.get(t, mode)
    dec = ProgError(torch.tensor(val(want, omode), dtype=torch.float), {"scale": 1, "mode": omode})
    second = chain(scn) if t == "chain" else None
    stall = {}
    total = {p: 0 for p in gens}
    for p, at, k in scn["stalls"]:
        if p in gens:
            stall.setdefault((p, at), 0)
            stall[(p, at)] += k
            total[p] += k
    T = n * scn["P"] + max(total.values(), default=0)
    env = {}
    for g, op, arg in scn["env"]:
        env.setdefault(g, []).append((op, arg))
    last, stalled = {}, 0
    ones = 0
    o = "out" if "out" in b.outs(c) else {"skewsync": "o1", "signabs": "abs"}[t]
    for g in range(T):
        ctx.info.update(step=g)
        for op, arg in env.get(g, ()):
            disturb(op, arg, ctx)
        x = {}
        for p in gens:
            if (p, g) in stall:
                hold[p] = hold.get(p, 0) + stall[(p, g)]
            if hold.get(p) and p in last:
                hold[p] -= 1
                stalled += 1
                x[p] = last[p].clone()
            else:
                x[p] = gens[p](idx[p])
                idx[p] = idx[p] + 1
            last[p] = x[p]
        y = b.call(m, x, c, g)[o]
        if second is not None:
            y = second(y)
        ctx.cycles += 1
        dec.Monitor(y)
        ones = ones + y.detach().double().numpy()
        if (g + 1) % n == 0 or g + 1 == T:
            pp, pe = dec()
            N = g + 1
            allow = a + f * N + lip * stalled + (slack(scn) * max(1, lip) * len(gens) if N % n or stalled else 0)
            err = np.abs(ones - N * want)
            ctx.log(N, ones.reshape(-1).tolist())
            if CALIB:
                with open(CALIB, "a") as fh:
                    if t in MEAN:
                        fh.write("%s %s %d %d %d %.4f %.4f\n" % (t + "-mean" + (":%d%d" % (c["jk"], c["emit"]) if t == "sqrt" else ""), mode, scn["w"], N, 0, err.mean(), mean_bound(scn) * N + 2 + stalled))
                    fh.write("%s %s %d %d %d %.4f %.4f\n" % (t + (":" + scn["chain"]["task"] if scn["chain"] else "") + (":%d%d" % (c["jk"], c["emit"]) if t == "sqrt" else "") + (":%d:%d" % (c["entry"], c["depth_ss"]) if t == "div" else ""), mode, scn["w"], N, stalled, err.max(), allow))
            else:
                over(err, allow, N, t, mode, scn, "counted")
                if t in MEAN and err.mean() > mean_bound(scn) * N + 2 + stalled:
                    raise Violation("not-ideal", "%s (%s): after %d cycles the mean error of %d lanes is %.2f ones; allowed %.2f" % (
                        t, mode, N, err.size, err.mean(), mean_bound(scn) * N + 2 + stalled))
                k = np.abs(pe.detach().double().numpy()) * N / (2 if omode == "bipolar" else 1)
                over(k, allow + 1e-4 * N, N, t, mode, scn, "reported by ProgError")
    ctx.fault("producer-stall", stalled)
    if stalled:
        ctx.probe("stalled")
    if scn["P"] >= 3:
        ctx.probe("three-periods")


def over(err, allow, N, t, mode, scn, how):
    if err.max() > allow:
        i = int(np.argmax(err.reshape(-1)))
        raise Violation("not-ideal", "%s (%s): after %d cycles element %d is off by %.2f ones, %s; allowed %.2f" % (
            t, mode, N, i, err.reshape(-1)[i], how, allow))


def chain(scn):
    from UnarySim.kernel import FSUAdd, FSUHardsigmoid, FSUReLU
    k = scn["chain"]
    t = {"stype": torch.float, "btype": torch.float}
    if k["task"] == "relu":
        m = FSUReLU({"depth": k["depth"]}, t)
        return m
    if k["task"] == "hardsigmoid":
        return FSUHardsigmoid({"mode": scn["mode"], "depth": k["depth"]}, t)
    m = FSUAdd({"mode": scn["mode"], "scale": None, "dima": 1, "depth": 12, "entry": None}, t)
    return lambda y: m(y).unsqueeze(1)


def shrink(scn, viol):
    if scn["env"]:
        yield dict(scn, env=[])
    for k in range(len(scn["stalls"])):
        s = copy.deepcopy(scn)
        del s["stalls"][k]
        yield s
    for P in range(1, scn["P"]):
        yield dict(copy.deepcopy(scn), P=P)
    for p in scn["ph"]:
        if any(scn["ph"][p]):
            s = copy.deepcopy(scn)
            s["ph"][p] = [0] * len(s["ph"][p])
            yield s
    n = 2 ** scn["w"]
    for p in scn["v"]:
        for i, v in enumerate(scn["v"][p]):
            if v not in (0, n):
                s = copy.deepcopy(scn)
                s["v"][p][i] = 0
                yield s
