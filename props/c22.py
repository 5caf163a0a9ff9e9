"""Straight-through gradients under interleaved forward and backward passes."""
import numpy as np
import torch

from sim import layers as L
from sim.core import Violation
from sim.env import obs, seed_all
from sim.world import disturb, gen_env, shrink_ops

ID = "C22"
QUICK = 3000
RULE = ("Seeded histories over 1-3 live layers: forward passes stay pending, backward passes are delivered in any order, several at once, "
        "twice, or never; gradients reset, inputs and parameters with or without gradient, disturbances; one layer may feed another.")
REAL = ["kernel/linear.py HUBLinearFunction, FXPLinearFunction, TLUTLinear*Function", "kernel/conv.py HUBConv2d, FXPConv2d, TLUTConv2d", "torch autograd"]
STUB = ["random draws during construction (simulated entropy)", "loss (simulator-chosen output gradients)"]
PROBES = ["hub-linear", "hub-conv", "fxp-linear", "fxp-conv", "tlut-linear", "tlut-conv", "out-of-order", "twice", "joint", "chain"]


def gen(r, tier):
    ls = [L.gen_layer(r, r.choice(["hub", "fxp", "tlut"])) for _ in range(r.choice([1, 2, 2, 3]))]
    if r.random() < 0.3 and len(ls) > 1:
        ls[1] = dict(ls[0], wseed=r.getrandbits(30))
    ops = []
    pend = 0
    for _ in range(r.randint(3, 16)):
        op = r.choice(["fwd"] * 4 + ["bwd"] * 3 + ["zero", "freeze", "update", "chain"])
        a = r.randrange(len(ls))
        ops.append([op, a, r.getrandbits(30), r.choice(["uniform", "uniform", "normal", "pow2", "sparse", "zeros"]), r.choice([1.0, 0.3, 5.0]),
                    r.choice([1, 1, 2, 3]), r.choice([1, 1, 1, 2]), r.random() < 0.7, r.random() < 0.4])
        pend += op == "fwd"
    ops += [["bwd", 0, r.getrandbits(30), "uniform", 1.0, 1, 1, True, False]] * 2
    return dict(layers=ls, ops=ops, env=gen_env(r, len(ops), ("reseed", "draw", "gc", "peer", "mode")), gseed=r.getrandbits(31))


def close(got, want, what, scale):
    g = np.zeros_like(want) if got is None else obs(got, what)
    if g.shape != want.shape:
        raise Violation("bad-shape", "%s has shape %s, expected %s" % (what, g.shape, want.shape))
    tol = 2e-5 * scale + 1e-12
    d = np.abs(g - want)
    if not (d <= tol).all():
        k = np.unravel_index(np.argmax(np.where(np.isnan(d), np.inf, d)), d.shape)
        raise Violation("wrong-gradient", "%s at %s is %r, expected %r" % (what, list(map(int, k)), float(g[k]), float(want[k])))


def run(scn, ctx):
    seed_all(scn["gseed"])
    live, exp, scale = [], [], []
    for i, c in enumerate(scn["layers"]):
        w = L.gen_w(c, c["wseed"], c["wstyle"], c["wmag"])
        b = np.random.RandomState(c["wseed"]).uniform(-1, 1, c["o"]).astype(np.float32) if c["bias"] else None
        live.append(L.build(c, w, b)[0])
        exp.append(dict(weight=np.zeros(w.shape), bias=np.zeros(c["o"])))
        scale.append(dict(weight=0.0, bias=0.0))
        ctx.probe("%s-%s" % (c["family"], "conv" if c["conv"] else "linear"))
    env = {}
    for g, op, arg in scn["env"]:
        env.setdefault(g, []).append((op, arg))
    pend = []

    def forward(i, t, g):
        c, m = scn["layers"][i], live[i]
        y = m(t)
        with torch.enable_grad():
            leaf = [t.detach().double().requires_grad_(), m.weight.detach().double().clone().requires_grad_()]
            if m.bias is not None:
                leaf.append(m.bias.detach().double().clone().requires_grad_())
            ref = L.plain(c, leaf[0], leaf[1], leaf[2] if m.bias is not None else None)
        if tuple(y.shape) != tuple(ref.shape):
            raise Violation("bad-shape", "output of call %d has shape %s, expected %s" % (g, tuple(y.shape), tuple(ref.shape)))
        return y, dict(layer=i, ref=ref, leaf=leaf, wneed=m.weight.requires_grad)

    def absorb(rec, gout):
        """Reference gradients of one forward pass; returns the gradient of its input."""
        gr = torch.autograd.grad(rec["ref"], rec["leaf"], gout, retain_graph=True)
        lay, k = rec["layer"], 0
        if rec["wneed"]:
            exp[lay]["weight"] += gr[1].numpy()
        # a scale for the comparison that bounds every summand
        ab = float(gout.abs().sum()) * (float(rec["leaf"][0].abs().max()) + 1)
        scale[lay]["weight"] += ab
        if len(gr) > 2:
            exp[lay]["bias"] += gr[2].numpy()
            scale[lay]["bias"] += ab
        return gr[0]

    for g, (op, i, seed, style, mag, nb, many, flag, again) in enumerate(scn["ops"]):
        if i >= len(live):
            continue
        ctx.info.update(step=g, node=i)
        for e, arg in env.get(g, ()):
            disturb(e, arg, ctx)
        c, m = scn["layers"][i], live[i]
        if op in ("fwd", "chain"):
            x = torch.tensor(L.gen_x(c, seed, nb, style, mag), requires_grad=flag)
            y, rec = forward(i, x, g)
            recs = [rec]
            if op == "chain":
                # feed the output of this layer to another linear one of the right width
                nxt = [k for k, d in enumerate(scn["layers"]) if not d["conv"] and not c["conv"] and d["i"] == c["o"] and d["family"] != "tlut"]
                if not nxt:
                    continue
                ctx.probe("chain")
                y, rec2 = forward(nxt[seed % len(nxt)], y, g)
                recs.append(rec2)
            ctx.cycles += len(recs)
            if not y.requires_grad:
                continue
            pend.append(dict(y=y, recs=recs, x=x, xg=np.zeros(x.shape), xs=0.0, used=0, flag=flag, at=g))
        elif op == "bwd" and pend:
            rs = np.random.RandomState(seed)
            sel = sorted(set(int(v) for v in rs.randint(0, len(pend), many)))
            if sel[0] != 0:
                ctx.probe("out-of-order")
            ctx.fault("backward-out-of-order", int(sel[0] != 0))
            if len(sel) > 1:
                ctx.probe("joint")
            loss = 0
            for k in sel:
                p = pend[k]
                go = torch.tensor(rs.uniform(-2, 2, tuple(p["y"].shape)), dtype=torch.float)
                loss = loss + (p["y"] * go).sum()
                gx = go.double()
                for rec in reversed(p["recs"]):
                    s = float(gx.abs().sum()) * (float(rec["leaf"][1].abs().max()) + 1)
                    gx = absorb(rec, gx)
                p["xg"] += gx.numpy()
                p["xs"] += s
                p["used"] += 1
                if p["used"] > 1:
                    ctx.probe("twice")
            L.lawful("backward pass of calls %s" % [pend[k]["at"] for k in sel], loss.backward, retain_graph=True)
            ctx.cycles += len(sel)
            for k in sel:
                p = pend[k]
                if p["flag"]:
                    close(p["x"].grad, p["xg"], "input gradient of call %d" % p["at"], p["xs"])
            for k, mm in enumerate(live):
                close(mm.weight.grad, exp[k]["weight"], "weight gradient of layer %d" % k, scale[k]["weight"])
                if mm.bias is not None:
                    close(mm.bias.grad, exp[k]["bias"], "bias gradient of layer %d" % k, scale[k]["bias"])
                ctx.log_bytes("%d.%d" % (g, k), np.round(exp[k]["weight"], 2).tobytes())
            if not again:
                pend = [p for k, p in enumerate(pend) if k not in sel]
            else:
                ctx.fault("backward-twice")
        elif op == "zero":
            ctx.fault("gradient-reset")
            m.zero_grad(set_to_none=bool(seed % 2))
            exp[i] = dict(weight=np.zeros_like(exp[i]["weight"]), bias=np.zeros_like(exp[i]["bias"]))
            scale[i] = dict(weight=0.0, bias=0.0)
        elif op == "freeze":
            if not any(rec["layer"] == i for p in pend for rec in p["recs"]):
                ctx.fault("weight-frozen")
                m.weight.requires_grad_(not m.weight.requires_grad)
        elif op == "update":
            if not any(rec["layer"] == i for p in pend for rec in p["recs"]):
                ctx.fault("parameter-update")
                with torch.no_grad():
                    m.weight.copy_(torch.tensor(L.gen_w(c, seed, style, mag)))


def shrink(scn, viol):
    if scn["env"]:
        yield dict(scn, env=[])
    for s in shrink_ops(scn, viol):
        s["env"] = []
        yield s
