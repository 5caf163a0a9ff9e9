"""Weight clipper: training histories of clipper applications, optimiser steps and corruptions of the parameters."""
import copy

import numpy as np
import torch

from sim.core import Violation
from sim.env import seed_all
from sim.world import disturb, gen_env, shrink_ops

ID = "C30"
QUICK = 5000
RULE = ("Seeded training histories: 1-2 clippers and 1-4 real modules (some sharing a parameter, some without weight or bias, some constant); "
        "applications, whole-model applications, optimiser steps, in-place corruptions (bit errors, extreme magnitudes, signed zeros, denormals), "
        "checkpoint restores and process disturbances interleave in a seeded order. After every application the parameters are compared with an "
        "independent computation; everything the clipper must not touch is compared with a copy.")
REAL = ["NN_SC_Weight_Clipper", "torch modules, SGD"]
STUB = ["training data (seeded)", "memory corruption of parameters (written by the simulator)"]
KINDS = ["linear", "linear", "conv", "nobias", "bn", "bn_plain", "relu", "tied", "view", "mgu", "double", "seq", "one"]
PROBES = ["kind:" + k for k in sorted(set(KINDS))] + ["first", "later", "again", "constant", "huge", "model", "sgd", "unipolar", "bipolar", "restore"]
CORR = ["noise", "noise", "big", "flip", "const", "ramp", "neg", "zero", "tiny", "one-outlier", "edge"]


def gen(r, tier):
    clips = [dict(mode=r.choice(["unipolar", "bipolar"]), bw=r.choice([1, 2, 3, 4, 5, 6, 8, 8, 8, 10, 12]), freq=r.choice([1, 1, 1, 1, 2, 7]))
             for _ in range(r.choice([1, 1, 2]))]
    mods = [dict(k=r.choice(KINDS), i=r.randint(1, 5), o=r.randint(1, 5), lay=r.choice([0, 0, 1]), frozen=r.random() < 0.15) for _ in range(r.randint(1, 4))]
    ops = []
    for _ in range(r.randint(2, 24 if tier == "quick" else 80)):
        k = r.choice(["clip", "clip", "clip", "corrupt", "corrupt", "sgd", "model", "again", "save", "restore"])
        ops.append([k, r.randrange(len(clips)), r.randrange(len(mods)), r.choice(CORR), r.getrandbits(31)])
    return dict(clips=clips, mods=mods, ops=ops, env=gen_env(r, len(ops), ("reseed", "draw", "gc", "peer")), gseed=r.getrandbits(31))


def make(d, mods):
    from torch import nn
    k, i, o = d["k"], d["i"], d["o"]
    if k == "conv":
        m = nn.Conv2d(i, o, (1, 2))
    elif k == "nobias":
        m = nn.Linear(i, o, bias=False)
    elif k == "bn":
        m = nn.BatchNorm1d(o)
    elif k == "bn_plain":
        m = nn.BatchNorm1d(o, affine=False)
    elif k == "relu":
        m = nn.ReLU()
    elif k == "mgu":
        from UnarySim.kernel.rnn import HardMGUCell
        m = HardMGUCell(i, o)
    elif k == "double":
        m = nn.Linear(i, o).double()
    elif k == "seq":
        m = nn.Sequential(nn.Linear(i, o), nn.ReLU(), nn.Linear(o, i, bias=False))
    elif k == "one":
        m = nn.Linear(1, 1)
    else:
        m = nn.Linear(i, o)
    if k == "tied":
        for x in mods:
            if type(x) is nn.Linear and x.weight.dtype == torch.float and x.weight.shape == m.weight.shape:
                m.weight = x.weight
    if k == "view" or d["lay"]:
        w = getattr(m, "weight", None)
        if w is not None and w.dim() == 2 and k != "tied":
            m.weight = nn.Parameter(w.data.t().contiguous().t())
    if d.get("frozen"):
        for t in m.parameters():
            t.requires_grad_(False)
    return m


def tensors(m):
    return [t for n, t in (("weight", getattr(m, "weight", None)), ("bias", getattr(m, "bias", None))) if isinstance(t, torch.Tensor)]


def everything(mods):
    out = {}
    for i, m in enumerate(mods):
        for n, t in list(m.named_parameters()) + list(m.named_buffers()):
            out["%d.%s" % (i, n)] = t
    return out


def np64(t):
    return t.detach().double().numpy().copy()


def corrupt(t, how, seed):
    g = np.random.RandomState(seed % 2 ** 31)
    x = t.data
    n = x.numel()
    a = g.randn(n)
    if how == "noise":
        a = a * g.choice([0.1, 0.7, 2, 10])
    elif how == "big":
        a = a * g.choice([1e4, 1e12, 1e30])
    elif how == "flip":           # one bit of one element
        a = np64(x).reshape(-1)
        a[g.randint(n)] *= -(2.0 ** g.randint(-20, 20))
    elif how == "const":
        a = a * 0 + g.choice([0, 1, -1, 0.3, -7, 1e20])
    elif how == "ramp":
        a = np.linspace(-g.rand() * 3, g.rand() * 3, n)
    elif how == "neg":
        a = -np.abs(a) - 0.01
    elif how == "zero":
        a = a * -0.0
    elif how == "tiny":
        a = a * 1e-30
    elif how == "one-outlier":
        a = a * 0.01
        a[g.randint(n)] = g.choice([-50.0, 50.0, 1e9])
    elif how == "edge":           # half-way between grid points, and just beyond the legal range
        a = g.choice([-1.0, 1.0, 0.0, 0.5, 1 / 512, 3 / 256, -1 / 256, 1 + 1e-6, -1 - 1e-6, 0.9999], n)
    x.copy_(torch.from_numpy(np.asarray(a).reshape(tuple(x.shape))).to(x.dtype))


def judge(c, before, after, first, what, ctx):
    s = 2.0 ** c["bw"]
    lo, unit = (0.0, 1 / s) if c["mode"] == "unipolar" else (-1.0, 2 / s)
    if not np.isfinite(after).all():
        raise Violation("not-finite", "%s contains %r after clipping" % (what, float(after[~np.isfinite(after)].reshape(-1)[0])))
    if (after < lo).any() or (after > 1).any():
        raise Violation("range", "%s is %r after clipping to [%g, 1]" % (what, float(after[(after < lo) | (after > 1)].reshape(-1)[0]), lo))
    k = after / unit
    if (k != np.rint(k)).any():
        raise Violation("grid", "%s is %r, not a multiple of %g" % (what, float(after[k != np.rint(k)].reshape(-1)[0]), unit))
    if first and before.max() > before.min():
        want = (before - before.min()) / (before.max() - before.min()) * (1 - lo) + lo
        bad = np.abs(after - want) > unit / 2 * 1.001 + 1e-5
        if bad.any():
            raise Violation("not-linear", "%s: %r mapped to %r, the linear map of the range gives %r" % (
                what, float(before[bad].reshape(-1)[0]), float(after[bad].reshape(-1)[0]), float(want[bad].reshape(-1)[0])))
        if after.max() != 1 or after.min() != lo:
            raise Violation("not-full-range", "%s maps to %r..%r" % (what, float(after.min()), float(after.max())))
        ctx.probe("first")
    else:
        want = np.rint(np.clip(before, lo, 1) / unit) * unit
        if (after != want).any():
            b = after != want
            raise Violation("not-clamped", "%s: %r became %r, expected %r" % (
                what, float(before[b].reshape(-1)[0]), float(after[b].reshape(-1)[0]), float(want[b].reshape(-1)[0])))
        ctx.probe("constant" if first else "later")


def run(scn, ctx):
    from UnarySim.kernel.utils import NN_SC_Weight_Clipper as Clip
    seed_all(scn["gseed"])
    mods = []
    for d in scn["mods"]:
        mods.append(make(d, mods))
        ctx.probe("kind:" + d["k"])
    clips = [Clip(frequency=c["freq"], mode=c["mode"], bitwidth=c["bw"]) for c in scn["clips"]]
    count = [c["freq"] for c in scn["clips"]]
    saved = None
    env = {}
    for g, op, arg in scn["env"]:
        env.setdefault(g, []).append((op, arg))

    def apply(ci, mi):
        c, m = scn["clips"][ci], mods[mi]
        model = mods[mi]
        targets = [x for x in model.modules()] if isinstance(model, torch.nn.Sequential) else [model]
        for x in targets:
            one(ci, c, x, mi)

    def one(ci, c, m, mi):
        mine = tensors(m)
        all_before = {k: (t, np64(t)) for k, t in everything(mods).items()}
        before = [np64(t) for t in mine]
        clips[ci](m)
        first = count[ci] <= 1
        count[ci] += 1
        check(c, m, mine, before, first, all_before, mi, ci)

    def check(c, m, mine, before, first, all_before, mi, ci):
        now = tensors(m)
        if len(now) != len(mine):
            raise Violation("lost-parameter", "module %d has %d parameters after clipping, %d before" % (mi, len(now), len(mine)))
        for j, (t, b) in enumerate(zip(now, before)):
            judge(c, b, np64(t), first, "module %d %s" % (mi, ("weight", "bias")[j] if len(now) == 2 else "parameter"), ctx)
            if np.abs(b).max() > 1e15:
                ctx.probe("huge")
        ids = {id(t) for t in mine}
        for k, (t, b) in all_before.items():
            if id(t) not in ids and not np.array_equal(np64(t), b, equal_nan=True):
                raise Violation("touched", "%s changed while module %d was clipped" % (k, mi))
        ctx.probe(c["mode"])
        ctx.log(mi, [np64(t).reshape(-1).tolist() for t in now])

    for g, (k, ci, mi, how, arg) in enumerate(scn["ops"]):
        ci, mi = ci % len(clips), mi % len(mods)
        ctx.info.update(step=g, node=mi)
        for op, a in env.get(g, ()):
            disturb(op, a, ctx)
        m = mods[mi]
        ctx.cycles += 1
        if k == "clip":
            apply(ci, mi)
        elif k == "again":
            # a second application right behind the first changes nothing
            apply(ci, mi)
            state = {n: np64(t) for n, t in everything(mods).items()}
            clips[ci](m) if not isinstance(m, torch.nn.Sequential) else [clips[ci](x) for x in m.modules()]
            n = 1 if not isinstance(m, torch.nn.Sequential) else len(list(m.modules()))
            late = count[ci] > 1
            count[ci] += n
            for nme, t in everything(mods).items():
                if late and not np.array_equal(np64(t), state[nme], equal_nan=True):
                    raise Violation("not-idempotent", "%s changed in the second of two applications" % nme)
            ctx.probe("again")
        elif k == "model":
            # Module.apply visits every sub-module once, children first
            box = torch.nn.ModuleList(mods)
            before = {}
            for x in box.modules():
                for t in tensors(x):
                    before.setdefault(id(t), np64(t))
            order = []

            def visit(x, ci=ci):
                order.append((x, [np64(t) for t in tensors(x)], count[ci] <= 1))
                clips[ci](x)
                count[ci] += 1
            box.apply(visit)
            last = {}
            for x, b, first in order:
                for t, y in zip(tensors(x), b):
                    last[id(t)] = (t, y, first)
            for t, y, first in last.values():
                judge(scn["clips"][ci], y, np64(t), first, "a parameter of the model", ctx)
            ctx.probe("model")
            ctx.log("model", [np64(t).reshape(-1).tolist() for t in everything(mods).values()])
        elif k == "corrupt":
            ts = [t for x in m.modules() for t in tensors(x)]
            if ts:
                corrupt(ts[arg % len(ts)], how, arg)
                ctx.fault("corrupt-" + how)
        elif k == "sgd":
            ps = [p for p in m.parameters() if p.requires_grad]
            if ps:
                opt = torch.optim.SGD(ps, lr=0.1)
                gen = np.random.RandomState(arg % 2 ** 31)
                for p in ps:
                    p.grad = torch.from_numpy(gen.randn(*p.shape)).to(p.dtype)
                opt.step()
                opt.zero_grad()
                ctx.probe("sgd")
        elif k == "save":
            saved = [copy.deepcopy(x.state_dict()) for x in mods]
        elif k == "restore" and saved is not None:
            for x, s in zip(mods, saved):
                x.load_state_dict(s)
            ctx.probe("restore")
            ctx.fault("restore")


def shrink(scn, viol):
    if scn["env"]:
        yield dict(scn, env=[])
    for s in shrink_ops(scn, viol):
        s["env"] = []
        yield s
    if len(scn["mods"]) > 1:
        for i in range(len(scn["mods"])):
            s = copy.deepcopy(scn)
            del s["mods"][i]
            yield s
    if len(scn["clips"]) > 1:
        for i in range(len(scn["clips"])):
            s = copy.deepcopy(scn)
            del s["clips"][i]
            yield s
