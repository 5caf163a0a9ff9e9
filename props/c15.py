"""Hard gated unit over arbitrarily long sequences, with state resets and parameter updates in between."""
import numpy as np
import torch

from sim.core import Violation
from sim.env import obs, same, seed_all, track
from sim.world import disturb, gen_env, shrink_ops

ID = "C15"
QUICK = 1400
CHUNK = 8
RULE = ("Sessions of up to 40 calls on 1-2 cells: hidden state fed back, reset, replaced or missing, parameters rewritten, extreme "
        "inputs, disturbances; the floating-point and the fixed-point variant.")
REAL = ["kernel/rnn.py HardMGUCell, HardMGUCellFXP", "kernel/utils.py Round, truncated_normal", "kernel/sigmoid.py", "kernel/tanh.py"]
STUB = ["fxp:shift runs: the operators << and >> of torch on floating-point tensors, which the installed torch lacks on the CPU "
        "(multiplication by a power of two, as in the releases that had them)"]
PROBES = ["hx:own", "hx:none", "hx:legal", "fxp:off", "fxp:on", "fxp:shift"]


def gen(r, tier):
    fxp = r.choice(["off"] * 6 + ["on"] + ["shift"] * 5)
    cells = []
    for _ in range(r.choice([1, 1, 2])):
        cells.append(dict(i=r.choice([1, 2, 4]), h=r.choice([1, 2, 3]), bias=r.choice([True, False]), seed=r.getrandbits(31),
                          mag=r.choice([0.3, 1, 1, 3, 10]), iw=r.choice([1, 2, 3]), fw=r.choice([2, 4, 6])))
    ops = []
    for _ in range(r.randint(3, 40)):
        ops.append([r.randrange(len(cells)), r.choice(["own"] * 6 + ["none", "legal"]), r.choice([0, 0, 0, 1]), r.getrandbits(31),
                    r.choice([0.5, 1, 1, 1, 4, 1e3])])
    return dict(fxp=fxp, b=r.choice([1, 1, 2, 3]), cells=cells, ops=ops,
                env=gen_env(r, len(ops), ("reseed", "draw", "gc", "peer", "mode", "grad")), gseed=r.getrandbits(31))


def clip(a):
    return np.clip(a, -1, 1)


def update(p, x, h):
    f = (clip(np.concatenate([h, x], 1) @ p["wf"].T + p["bf"]) + 1) / 2
    fh = f * h
    n = clip(np.concatenate([fh, x], 1) @ p["wn"].T + p["bn"])
    return clip(n - f * n + fh), n


def update_fxp(p, x, h, iw, fw):
    top = (2 ** (iw + fw) - 1) / 2 ** fw

    def q(a):
        return np.clip(np.round(a * 2 ** fw) / 2 ** fw, -top, top)
    f = q((q(clip(np.concatenate([q(h), q(x)], 1) @ q(p["wf"]).T + q(p["bf"]))) + 1) / 2)
    fh = q(f * q(h))
    n = q(clip(q(np.concatenate([fh, q(x)], 1) @ q(p["wn"]).T + q(p["bn"]))))
    return clip(n - q(f * n) + fh), n


class FloatShift:
    """The platform's << and >> on floating-point tensors: multiplication with a power of two."""
    def __enter__(self):
        T = torch.Tensor
        self.old = [T.__lshift__, T.__rshift__]

        def op(old, sign):
            def f(a, b):
                if a.is_floating_point():
                    return a * 2.0 ** (b * sign)
                return old(a, b)
            return f
        T.__lshift__, T.__rshift__ = op(self.old[0], 1), op(self.old[1], -1)

    def __exit__(self, *x):
        torch.Tensor.__lshift__, torch.Tensor.__rshift__ = self.old


def run(scn, ctx):
    if scn["fxp"] == "shift":
        with FloatShift():
            return session(scn, ctx)
    session(scn, ctx)


def session(scn, ctx):
    from UnarySim.kernel import HardMGUCell, HardMGUCellFXP
    seed_all(scn["gseed"])
    ctx.probe("fxp:" + scn["fxp"])
    fx = scn["fxp"] != "off"
    live, pars = [], []
    for c in scn["cells"]:
        if fx:
            m = HardMGUCellFXP(c["i"], c["h"], bias=c["bias"], intwidth=c["iw"], fracwidth=c["fw"])
        else:
            m = HardMGUCell(c["i"], c["h"], bias=c["bias"])
        live.append(track(m))
        pars.append(None)
    state = {}
    env = {}
    for g, op, arg in scn["env"]:
        env.setdefault(g, []).append((op, arg))

    def setpar(k, seed):
        c, m = scn["cells"][k], live[k]
        r = np.random.RandomState(seed)
        p = dict(wf=r.uniform(-1, 1, (c["h"], c["h"] + c["i"])) * c["mag"], wn=r.uniform(-1, 1, (c["h"], c["h"] + c["i"])) * c["mag"],
                 bf=r.uniform(-1, 1, c["h"]) * (c["bias"]), bn=r.uniform(-1, 1, c["h"]) * (c["bias"]))
        p = {a: v.astype(np.float32) for a, v in p.items()}
        with torch.no_grad():
            m.weight_f.copy_(torch.tensor(p["wf"]))
            m.weight_n.copy_(torch.tensor(p["wn"]))
            if c["bias"]:
                m.bias_f.copy_(torch.tensor(p["bf"]))
                m.bias_n.copy_(torch.tensor(p["bn"]))
        pars[k] = {a: v.astype(np.float64) for a, v in p.items()}

    for k, c in enumerate(scn["cells"]):
        setpar(k, c["seed"])
    for g, (k, how, upd, seed, mag) in enumerate(scn["ops"]):
        ctx.info.update(step=g, node=k)
        for op, arg in env.get(g, ()):
            disturb(op, arg, ctx)
        c = scn["cells"][k]
        if upd:
            ctx.fault("parameter-update")
            setpar(k, seed)
        r = np.random.RandomState(seed ^ 1)
        x = (r.uniform(-1, 1, (scn["b"], c["i"])) * mag).astype(np.float32)
        if how == "own" and k not in state:
            how = "legal"
        if how == "none":
            hx, h = None, np.zeros((scn["b"], c["h"]))
        elif how == "own":
            hx = state[k]
            h = hx.double().numpy()
        else:
            h = r.choice([-1, -0.5, 0, 1, 0.25, r.uniform(-1, 1)], (scn["b"], c["h"])).astype(np.float32)
            hx, h = torch.tensor(h), h.astype(np.float64)
        ctx.probe("hx:" + how)
        ctx.fault("hidden-" + how, int(how != "own"))
        with torch.no_grad():
            y = live[k](torch.tensor(x), hx)
        got = obs(y, "hidden value", [scn["b"], c["h"]])
        ctx.cycles += 1
        ctx.log_bytes("%d" % g, np.round(got, 4).tobytes())
        if not (np.abs(got) <= 1 + 1e-6).all():
            raise Violation("range", "hidden value %r outside [-1, 1] in call %d" % (float(np.abs(got).max()), g))
        if fx:
            # inputs beyond single precision of the grid are avoided by the model clamp
            want, n = update_fxp(pars[k], x.astype(np.float64), h, c["iw"], c["fw"])
            tol = 1e-6
        else:
            want, n = update(pars[k], x.astype(np.float64), h)
            tol = 2e-5 * max(1.0, mag * c["mag"])
        same(got, want, "wrong-output", "hidden value of call %d" % g, tol)
        if not fx:
            lo, hi = np.minimum(h, n) - tol, np.maximum(h, n) + tol
            if not ((got >= lo) & (got <= hi)).all():
                raise Violation("not-between", "hidden value of call %d is not between the old one and the new gate" % g)
        state[k] = y.detach().clone()


def shrink(scn, viol):
    if scn["env"]:
        yield dict(scn, env=[])
    for s in shrink_ops(scn, viol):
        s["env"] = []
        yield s
