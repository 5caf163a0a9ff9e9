"""Streaming recurrent cell: the cell as a world node, the hybrid cell as a session of calls."""
import numpy as np
import torch

from sim import models as M
from sim.benches import case, prob, rare, vals
from sim.core import Violation
from sim.env import obs, same, seed_all, sequence, track
from sim.world import disturb, gen_env, gen_world, run_model_world, shrink_ops, shrink_world

ID = "C14"
QUICK = 700
CHUNK = 6
RULE = ("Either a seeded world of streaming cells (links with faults), or a session of calls on 1-2 hybrid cells interleaved with "
        "disturbances, hidden values fed back, supplied or missing.")
REAL = ["kernel/rnn.py FSUMGUCell, HUBMGUCell", "kernel/linear.py", "kernel/mul.py", "kernel/add.py", "stream/gen.py", "metric/metric.py ProgError"]
STUB = ["random draws during construction (simulated entropy)", "bit producers of the streaming cell", "clock"]
PROBES = ["bench:mgu", "hub:none", "hub:own", "hub:codes"]


def gen(r, tier):
    if r.random() < 0.5:
        return gen_world(r, ["mgu"], nodes=(1, 2))
    cells = []
    for _ in range(r.choice([1, 1, 2])):
        w = r.choice(rare(r, [3, 4, 4, 5], [6, 7, 7, 8]))
        i, h = r.choice([1, 2, 3]), r.choice([1, 2, 3])
        if w > 5:
            i, h = 1, r.choice([1, 2])
        bias = r.choice([True, False])
        cells.append(dict(i=i, h=h, width=w, depth=r.choice([8, 10]), ism=r.choice([2, 3, 4]), rng=case(r, r.choice(["sobol", "rc"])),
                          dimr=r.choice([1, 1, 2, 3]), wf=[vals(r, i + h, w) for _ in range(h)], wn=[vals(r, i + h, w) for _ in range(h)],
                          bf=vals(r, h, w) if bias else None, bn=vals(r, h, w) if bias else None, mode=case(r, "bipolar")))
    ops = []
    for _ in range(r.randint(2, 6) if max(c["width"] for c in cells) < 6 else 2):
        k = r.randrange(len(cells))
        c = cells[k]
        b = r.choice([1, 1, 2])
        ops.append([k, b, vals(r, b * c["i"], c["width"]), r.choice(["own", "own", "none", "codes"]), vals(r, b * c["h"], c["width"]),
                    [r.choice([0, 0, 3, -3]) for _ in range(b * c["i"])]])
    return dict(cells=cells, ops=ops, env=gen_env(r, len(ops), ("reseed", "draw", "gc", "peer", "mode", "grad")), gseed=r.getrandbits(31))


def run(scn, ctx):
    if "nodes" in scn:
        return run_model_world(scn, ctx)
    from UnarySim.kernel import HUBMGUCell
    seed_all(scn["gseed"])
    f = lambda v, w: None if v is None else torch.tensor(prob(v, w, "bipolar"), dtype=torch.float)  # noqa: E731
    live = []
    for c in scn["cells"]:
        w = c["width"]
        live.append(track(HUBMGUCell(c["i"], c["h"], bias=c["bf"] is not None, weight_ext_f=f(c["wf"], w), bias_ext_f=f(c["bf"], w),
                               weight_ext_n=f(c["wn"], w), bias_ext_n=f(c["bn"], w),
                               hwcfg={"width": w, "mode": c["mode"], "depth": c["depth"], "depth_ismul": c["ism"], "rng": c["rng"],
                                      "dimr": c["dimr"]})))
    state = {}
    env = {}
    for g, op, arg in scn["env"]:
        env.setdefault(g, []).append((op, arg))
    for g, (k, b, xi, how, hc, jit) in enumerate(scn["ops"]):
        ctx.info.update(step=g, node=k)
        for op, arg in env.get(g, ()):
            disturb(op, arg, ctx)
        c = scn["cells"][k]
        n = 2 ** c["width"]
        code = np.array(xi).reshape(b, c["i"])
        fine = np.clip(np.array([v + j / 8 for v, j in zip(xi, jit)]), 0, n).reshape(b, c["i"])
        x = torch.tensor(prob(fine, c["width"], "bipolar"), dtype=torch.float)
        if how == "own" and (k not in state or state[k][0].shape[0] != b):
            how = "codes"
        if how == "none":
            hx, hcode = None, np.full((b, c["h"]), n // 2)
        elif how == "own":
            hx = state[k][0]
            hcode = state[k][1]
        else:
            hcode = np.array(hc).reshape(b, c["h"])
            hx = torch.tensor(prob(hcode, c["width"], "bipolar"), dtype=torch.float)
        ctx.probe("hub:" + how)
        ctx.fault("hidden-" + how, int(how != "own"))
        hy = live[k](x, hx)
        seq = sequence(c["rng"].lower(), c["width"], c["dimr"], 0)
        ref = M.MGU(c["wf"], c["bf"], c["wn"], c["bn"], hcode, seq, sequence(c["rng"].lower(), c["ism"], c["dimr"], 0), c["ism"],
                    c["depth"], b)
        ones = np.zeros((b, c["h"]), int)
        for t in range(n):
            ones = ones + ref.step((code > seq[t]).astype(int), (hcode > seq[t]).astype(int))
        ctx.cycles += n
        got = obs(hy, "hybrid cell output", [b, c["h"]])
        same(got, 2 * ones / n - 1, "wrong-output", "hybrid cell output of call %d" % g, 1e-6)
        if (np.abs(got) > 1).any():
            raise Violation("range", "hidden value outside [-1, 1]")
        ctx.log_bytes("%d" % g, got.tobytes())
        # the bipolar average 2*ones/n-1 is the code 'ones'
        state[k] = (hy.detach().clone(), ones)


def shrink(scn, viol):
    if "nodes" in scn:
        yield from shrink_world(scn, viol)
    else:
        for s in shrink_ops(dict(scn, env=[]), viol):
            yield s
        for s in shrink_ops(scn, viol):
            s["env"] = []
            yield s
