"""Sessions on numeric layers: calls, parameter updates, training steps, other layers, disturbances."""
import copy

import numpy as np
import torch

from sim import layers as L
from sim.core import Violation
from sim.env import obs, seed_all
from sim.world import disturb, gen_env, shrink_ops


def make(family):
    def gen(r, tier):
        ls = [L.gen_layer(r, family) for _ in range(r.choice([1, 1, 2, 2, 3]))]
        ops = []
        for _ in range(r.randint(3, 14)):
            op = r.choice(["call"] * 5 + ["again", "update", "update", "train", "mode", "snapshot"])
            ops.append([r.randrange(len(ls)), op, r.getrandbits(30), r.choice(L.STYLES), r.choice([1.0, 1.0, 0.1, 0.3, 0.7, 5.0, 100.0, 1e-3]),
                        r.choice([1, 1, 2, 3])])
        ops.append([r.randrange(len(ls)), "call", r.getrandbits(30), "uniform", 1.0, 1])
        return dict(layers=ls, ops=ops, env=gen_env(r, len(ops), ("reseed", "draw", "gc", "peer", "mode")), gseed=r.getrandbits(31))

    def run(scn, ctx):
        seed_all(scn["gseed"])
        live, par, last = [], [], {}
        for i, c in enumerate(scn["layers"]):
            ctx.info["node"] = i
            w = L.gen_w(c, c["wseed"], c["wstyle"], c["wmag"])
            b = np.random.RandomState(c["wseed"]).uniform(-1, 1, c["o"]).astype(np.float32) if c["bias"] else None
            live.append(L.build(c, w.copy(), None if b is None else b.copy())[0])
            par.append((w, b))
        env = {}
        for g, op, arg in scn["env"]:
            env.setdefault(g, []).append((op, arg))
        for g, (i, op, seed, style, mag, nb) in enumerate(scn["ops"]):
            if i >= len(live):
                continue
            ctx.info.update(step=g, node=i)
            for e, arg in env.get(g, ()):
                disturb(e, arg, ctx)
            c, m = scn["layers"][i], live[i]
            if op in ("call", "again", "train"):
                if op == "again" and i in last:
                    x = last[i]
                else:
                    x = L.gen_x(c, seed, nb, style, mag)
                    last[i] = x
                t = torch.tensor(x, requires_grad=(op == "train"))
                y = m(t)
                got = obs(y, "%s layer output" % family, None)
                if not np.isfinite(got).all():
                    raise Violation("not-finite", "output of call %d is not finite" % g)
                judge(c, x, par[i], got, g)
                ctx.cycles += 1
                ctx.probe("style:" + style)
                ctx.probe("conv" if c["conv"] else "linear")
                for k in ("rngi", "rngw", "formati", "formatw", "rounding"):
                    if k in c["hw"]:
                        ctx.probe("%s:%s" % (k, str(c["hw"][k]).lower()))
                ctx.log_bytes("%d" % g, np.round(got, 3).tobytes())
                if op == "train":
                    ctx.fault("training-step")
                    m.zero_grad()
                    L.lawful("backward pass of call %d" % g, y.sum().backward)
                    with torch.no_grad():
                        # an optimiser step; the simulator decides the result
                        w = L.gen_w(c, seed ^ 5, "uniform", mag)
                        m.weight.add_(torch.tensor(w) - m.weight)
                        m.weight.copy_(torch.tensor(w))
                    par[i] = (w, par[i][1])
            elif op == "update":
                ctx.fault("parameter-update")
                w = L.gen_w(c, seed, style, mag)
                b = par[i][1]
                if b is not None:
                    b = np.random.RandomState(seed).uniform(-2, 2, c["o"]).astype(np.float32)
                if seed % 3 == 0:
                    m.weight.data = torch.tensor(w)
                elif seed % 3 == 1:
                    with torch.no_grad():
                        m.weight.copy_(torch.tensor(w))
                else:
                    sd = L.lawful("state_dict", m.state_dict)
                    sd["weight"] = torch.tensor(w)
                    L.lawful("load_state_dict", m.load_state_dict, sd)
                if b is not None:
                    m.bias.data = torch.tensor(b)
                par[i] = (w, b)
            elif op == "mode":
                ctx.fault("mode-switch")
                (m.eval if seed % 2 else m.train)()
            elif op == "snapshot":
                ctx.fault("restart-from-snapshot")
                live[i] = L.lawful("snapshot", copy.deepcopy if seed % 2 else torch_roundtrip, m)

    def judge(c, x, p, got, g):
        want, tol = L.reference(c, x, *p)
        best = None
        for wv in want:
            if got.shape != wv.shape:
                raise Violation("bad-shape", "output has shape %s, expected %s" % (got.shape, wv.shape))
            d = np.abs(got - wv)
            if (d <= tol).all():
                return
            k = np.unravel_index(np.argmax(d), d.shape)
            best = "output of call %d at %s is %r, expected %r" % (g, list(map(int, k)), float(got[k]), float(wv[k]))
        raise Violation("wrong-output", best)

    def shrink(scn, viol):
        if scn["env"]:
            yield dict(scn, env=[])
        for s in shrink_ops(scn, viol):
            s["env"] = []
            yield s
    return gen, run, shrink


def torch_roundtrip(m):
    import io
    b = io.BytesIO()
    torch.save(m, b)
    b.seek(0)
    return torch.load(b, weights_only=False)
