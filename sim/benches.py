"""Adapters: how each real component is configured, built, clocked and modelled.

A bench knows nothing about schedules or faults.  `build` goes through the public
constructor only and returns (module, configuration dictionaries it was given);
`call` clocks the module once; `model`/`mstep` do the same on the reference."""
import math

import numpy as np
import torch

from . import models as M
from .env import DT, Entropy, sequence, obs

ELT = ["f32"] * 6 + ["i8", "i32", "f64", "i64"]
BELT = ["f32"] * 6 + ["i32", "f64", "i64"]
RATE = ["sobol", "sobol", "rc", "lfsr", "sys"]
TEMPORAL = ["race", "tc", "race10", "tc10"]


SHARED = None           # registry of dictionaries when the simulator lets components share them
GIVEN = []              # (object, copy) of every tensor and dictionary handed to a constructor


def share(ds):
    """The dictionaries a constructor is given; equal ones may be one object."""
    out = []
    for d in ds:
        if SHARED is None:
            out.append(d)
            GIVEN.append((d, dict(d)))
            continue
        for e in SHARED:
            if repr(e) == repr(d):
                d = e
                break
        else:
            SHARED.append(d)
        out.append(d)
        GIVEN.append((d, dict(d)))
    return out


def give(t):
    if t is not None:
        GIVEN.append((t, t.detach().clone()))
    return t


def prod(s):
    n = 1
    for x in s:
        n *= x
    return n


def rare(r, usual, outliers, p=0.05):
    """Mostly small, now and then far outside the usual sizes."""
    return outliers if r.random() < p else usual


def rshape(r, cap=6):
    if r.random() < 0.03:
        return r.choice([[17], [2, 2, 3], [1, 2, 1, 2], [33], [1, 5]])
    return r.choice([[1], [2], [3], [cap], [1, 1], [2, 2], [1, 3], [2, 1, 2], [3, 1]])


def case(r, s):
    return r.choice([s, s, s.upper(), s.capitalize()])


def prob(ints, width, mode):
    """Exact value whose w-bit code is the integer."""
    a = np.asarray(ints, float) / 2 ** width
    return a if mode == "unipolar" else 2 * a - 1


def vals(r, n, width):
    top = 2 ** width
    return [r.choice([0, top, top // 2, r.randint(0, top), r.randint(0, top), r.randint(0, top)]) for _ in range(n)]


class Bench:
    NAME = ""
    PORTS = ["in"]
    STREAM = True           # outputs are bits
    TOL = 0.0
    ELEMENTWISE = True
    STEPS = (30, 160)
    WEIGHT = 1.0
    DEPTH_SPAN = False      # the run must be long enough to reach the rails of a deep counter

    def gen(self, r, big=False):
        raise NotImplementedError

    def pshape(self, c, sh, port):
        return sh

    def oshape(self, c, sh, out):
        return sh

    def in_dt(self, c):
        return c.get("st", "f32")

    def out_dt(self, c):
        return DT[c.get("st", "f32")]

    def build(self, c, sh, key):
        raise NotImplementedError

    def call(self, m, x, c, t):
        raise NotImplementedError

    def model(self, c, sh, key):
        raise NotImplementedError

    def mstep(self, m, x, c, t):
        raise NotImplementedError

    def outs(self, c):
        return ["out"]

    def slice(self, c, sh, k):
        """Configuration of lane k alone: (cfg, shape, {port: flat input lanes}, {out: flat output lanes})"""
        return c, [1], {p: [k] for p in self.PORTS}, {o: [k] for o in self.outs(c)}

    def span(self, c):
        """Cycles after which every part of the state has been used once; large ones lengthen the run."""
        return c.get("span") or (2 ** c["depth"] // 2 if self.DEPTH_SPAN and c["depth"] > 6 else 0)

    def nlanes(self, c, sh):
        return prod(sh)

    def ctor(self, cls, args, dicts, key, nograd=False):
        with Entropy(key).installed():
            if nograd:
                with torch.no_grad():
                    return cls(*args, *dicts)
            return cls(*args, *dicts)


def st_bt(r):
    return {"st": r.choice(ELT), "bt": r.choice(BELT)}


def sw(c, *names):
    m = {"stype": "st", "btype": "bt", "rtype": "rt"}
    return {n: DT[c.get(m[n], "f32")] for n in names}


class Bi2Uni(Bench):
    NAME = "bi2uni"
    DEPTH_SPAN = True

    def gen(self, r, big=False):
        return dict(depth=r.choice(rare(r, [3, 3, 3, 2, 4, 5, 6], [7, 8, 9])), **st_bt(r)), rshape(r)

    def build(self, c, sh, key):
        from UnarySim.stream import Bi2Uni as K
        d = [{"depth": c["depth"]}, sw(c, "stype", "btype")]
        d = share(d)
        return self.ctor(K, (), d, key), d

    def call(self, m, x, c, t):
        return {"out": m(x["in"])}

    def model(self, c, sh, key):
        return M.Bi2Uni(c["depth"], tuple(sh))

    def mstep(self, m, x, c, t):
        return {"out": m.step(x["in"])}


class Uni2Bi(Bi2Uni):
    NAME = "uni2bi"

    def gen(self, r, big=False):
        return dict(depth=r.choice(rare(r, [4, 4, 4, 5, 6, 8], [7, 9, 10])), **st_bt(r)), rshape(r)

    def build(self, c, sh, key):
        from UnarySim.stream import Uni2Bi as K
        d = [{"depth": c["depth"]}, sw(c, "stype", "btype")]
        d = share(d)
        return self.ctor(K, (), d, key), d

    def model(self, c, sh, key):
        return M.Uni2Bi(c["depth"], tuple(sh))


class SkewedSync(Bench):
    NAME = "skewsync"
    PORTS = ["a", "b"]
    DEPTH_SPAN = True

    def gen(self, r, big=False):
        return dict(depth=r.choice(rare(r, [1, 2, 2, 3, 4, 5], [6, 7, 8])), **st_bt(r)), rshape(r)

    def outs(self, c):
        return ["o1", "o2"]

    def build(self, c, sh, key):
        from UnarySim.stream import SkewedSync as K
        d = [{"depth": c["depth"]}, sw(c, "stype", "btype")]
        d = share(d)
        return self.ctor(K, (), d, key), d

    def call(self, m, x, c, t):
        o = m(x["a"], x["b"])
        return {"o1": o[0], "o2": o[1]}

    def model(self, c, sh, key):
        return M.SkewedSync(c["depth"], tuple(sh))

    def mstep(self, m, x, c, t):
        a, b = m.step(x["a"], x["b"])
        return {"o1": a, "o2": b}


class Add(Bench):
    NAME = "add"

    def gen(self, r, big=False):
        sh = rshape(r, 4)
        n = r.choice(rare(r, [1, 2, 2, 3, 4, 5, 8], [20, 45, 130, 130, 300], 0.06))
        ax = r.choice([0, 0, 0, len(sh), -1, r.randint(0, len(sh))])
        mode = r.choice(["unipolar", "bipolar"])
        scales = [None, None, 1, 2, n, 4, 0.5, 1.5, n + 1]
        c = dict(mode=case(r, mode), dima=ax, n=n, depth=r.choice([10, 10, 12, 4, 5, 6]),
                 scale=r.choice(scales), entry=r.choice([None, None, n, n + 2]),
                 arg_scale=r.choice([None, None, None, 1, 2.5, n]), arg_entry=r.choice([None, None, None, n, n + 1]),
                 late=r.choice([False, False, True]), **st_bt(r))
        if any(v is not None and v != int(v) for v in (c["scale"], c["arg_scale"])) or mode == "bipolar":
            if c["bt"][0] == "i":
                c["bt"] = "f32"
        elif r.random() < (0.5 if n > 100 else 0.05):
            c["bt"] = "i8"
        return c, sh

    def pshape(self, c, sh, port):
        s = list(sh)
        ax = c["dima"]
        if ax < 0:
            ax += len(sh) + 1
        s.insert(ax, c["n"])
        return s

    def build(self, c, sh, key):
        from UnarySim.kernel import FSUAdd as K
        d = [{"mode": c["mode"], "scale": c["scale"], "dima": c["dima"], "depth": c["depth"], "entry": c["entry"]},
             sw(c, "btype", "stype")]
        d = share(d)
        return self.ctor(K, (), d, key), d

    def call(self, m, x, c, t):
        if t == 0:
            return {"out": m(x["in"], c["arg_scale"], c["arg_entry"])}
        if c["late"] and t % 3 == 1:
            # once latched, later arguments must not matter
            return {"out": m(x["in"], 7, 9)}
        return {"out": m(x["in"])}

    def resolve(self, c):
        e = c["arg_entry"] if c["arg_entry"] is not None else (c["entry"] if c["entry"] is not None else c["n"])
        s = c["arg_scale"] if c["arg_scale"] is not None else (c["scale"] if c["scale"] is not None else e)
        return s, e

    def model(self, c, sh, key):
        s, e = self.resolve(c)
        return M.Add(c["mode"].lower(), s, e, c["depth"], tuple(sh))

    def mstep(self, m, x, c, t):
        return {"out": m.step(x["in"].sum(c["dima"]))}

    def slice(self, c, sh, k):
        ps = self.pshape(c, sh, "in")
        ax = c["dima"] if c["dima"] >= 0 else c["dima"] + len(sh) + 1
        idx = np.moveaxis(np.arange(prod(ps)).reshape(ps), ax, -1).reshape(-1, c["n"])[k]
        c1 = dict(c, dima=0)
        return c1, [1], {"in": [int(i) for i in idx]}, {"out": [k]}


class Mul(Bench):
    NAME = "mul"
    STEPS = (40, 200)

    def gen(self, r, big=False):
        sh = rshape(r)
        w = r.choice(rare(r, [2, 3, 4, 4, 5, 6], [7, 8, 1]))
        mode = r.choice(["unipolar", "bipolar"])
        rng = r.choice(RATE + TEMPORAL)
        if rng == "lfsr":
            w = max(w, 2)
        return dict(mode=case(r, mode), width=w, rng=case(r, rng), dimr=r.choice([1, 1, 2, 3, 5]),
                    b=vals(r, prod(sh), w), st=r.choice(ELT), rt=r.choice(["f32", "f32", "f64", "i64", "i32"])), sh

    def hw(self, c):
        return {"width": c["width"], "mode": c["mode"], "static": True, "rng": c["rng"], "dimr": c["dimr"]}

    def build(self, c, sh, key):
        from UnarySim.kernel import FSUMul as K
        d = [self.hw(c), sw(c, "rtype", "stype")]
        d = share(d)
        p = give(torch.tensor(prob(c["b"], c["width"], c["mode"].lower()), dtype=torch.float).reshape(sh))
        return self.ctor(K, (p,), d, key), d

    def call(self, m, x, c, t):
        return {"out": m(x["in"])}

    def model(self, c, sh, key):
        seq = sequence(c["rng"].lower(), c["width"], c["dimr"], key)
        return M.MulStatic(c["mode"].lower(), np.array(c["b"]).reshape(sh), seq)

    def mstep(self, m, x, c, t):
        return {"out": m.step(x["in"])}

    def slice(self, c, sh, k):
        return dict(c, b=[c["b"][k]]), [1], {"in": [k]}, {"out": [k]}


class MulIS(Mul):
    NAME = "mulis"
    PORTS = ["in", "in1"]

    def gen(self, r, big=False):
        c, sh = Mul.gen(self, r, big)
        c["width"] = r.choice(rare(r, [2, 3, 4, 5], [6, 7, 7, 8]))
        c["b"] = None
        return c, sh

    def span(self, c):
        return 2 ** c["width"]

    def build(self, c, sh, key):
        from UnarySim.kernel import FSUMul as K
        d = [dict(self.hw(c), static=False), sw(c, "rtype", "stype")]
        d = share(d)
        return self.ctor(K, (None,), d, key), d

    def call(self, m, x, c, t):
        return {"out": m(x["in"], x["in1"])}

    def model(self, c, sh, key):
        seq = sequence(c["rng"].lower(), c["width"], c["dimr"], key)
        return M.MulStream(c["mode"].lower(), c["width"], seq, tuple(sh))

    def mstep(self, m, x, c, t):
        return {"out": m.step(x["in"], x["in1"])}

    def slice(self, c, sh, k):
        return c, [1], {"in": [k], "in1": [k]}, {"out": [k]}


class ReLU(Bench):
    NAME = "relu"
    DEPTH_SPAN = True

    def gen(self, r, big=False):
        return dict(depth=r.choice(rare(r, [2, 3, 4, 5, 6, 6, 7], [8, 8, 9])), **st_bt(r)), rshape(r)

    def build(self, c, sh, key):
        from UnarySim.kernel import FSUReLU as K
        d = [{"depth": c["depth"]}, sw(c, "stype", "btype")]
        d = share(d)
        return self.ctor(K, (), d, key), d

    def call(self, m, x, c, t):
        return {"out": m(x["in"])}

    def model(self, c, sh, key):
        return M.ReLU(c["depth"], tuple(sh))

    def mstep(self, m, x, c, t):
        return {"out": m.step(x["in"])}


class HardSigmoid(Bench):
    NAME = "hardsigmoid"

    def gen(self, r, big=False):
        return dict(mode=case(r, r.choice(["unipolar", "bipolar"])), depth=r.choice([4, 6, 8, 8, 10]), **st_bt(r)), rshape(r)

    def build(self, c, sh, key):
        from UnarySim.kernel import FSUHardsigmoid as K
        d = [{"mode": c["mode"], "depth": c["depth"]}, sw(c, "stype", "btype")]
        d = share(d)
        return self.ctor(K, (), d, key), d

    def call(self, m, x, c, t):
        return {"out": m(x["in"])}

    def model(self, c, sh, key):
        return M.Add(c["mode"].lower(), 2, 2, c["depth"], tuple(sh))

    def mstep(self, m, x, c, t):
        return {"out": m.step(x["in"] + 1)}


class HardTanh(Bench):
    NAME = "hardtanh"

    def gen(self, r, big=False):
        return dict(st=r.choice(ELT)), rshape(r)

    def build(self, c, sh, key):
        from UnarySim.kernel import FSUHardtanh as K
        return K(), []

    def call(self, m, x, c, t):
        return {"out": m(x["in"])}

    def model(self, c, sh, key):
        return None

    def mstep(self, m, x, c, t):
        return {"out": x["in"]}


class SignAbs(Bench):
    NAME = "signabs"
    DEPTH_SPAN = True

    def gen(self, r, big=False):
        return dict(depth=r.choice(rare(r, [1, 2, 3, 3, 4, 6], [7, 8, 9])), **st_bt(r)), rshape(r)

    def outs(self, c):
        return ["sign", "abs"]

    def build(self, c, sh, key):
        from UnarySim.kernel import FSUSignAbs as K
        d = [{"depth": c["depth"]}, sw(c, "stype", "btype")]
        d = share(d)
        return self.ctor(K, (), d, key), d

    def call(self, m, x, c, t):
        s, a = m(x["in"])
        return {"sign": s, "abs": a}

    def model(self, c, sh, key):
        return M.SignAbs(c["depth"], tuple(sh))

    def mstep(self, m, x, c, t):
        s, a = m.step(x["in"])
        return {"sign": s, "abs": a}


class ShiftReg(Bench):
    NAME = "shiftreg"
    PORTS = ["in", "mask"]

    def gen(self, r, big=False):
        n = r.choice(rare(r, [1, 2, 3, 4, 8, 8, 16], [5, 32, 64, 128, 160]))
        return dict(entry=n, masked=r.choice([False, True]), index=[r.randrange(n) for _ in range(r.choice([1, 1, 5, 7]))],
                    st=r.choice(ELT)), rshape(r)

    def span(self, c):
        return c["entry"]

    def outs(self, c):
        return ["bit", "count"]

    def build(self, c, sh, key):
        from UnarySim.kernel import ShiftReg as K
        d = [{"entry": c["entry"]}, sw(c, "stype")]
        d = share(d)
        return self.ctor(K, (), d, key), d

    def call(self, m, x, c, t):
        i = c["index"][t % len(c["index"])]
        o = m(x["in"], mask=x["mask"] if c["masked"] else None, index=i)
        return {"bit": o[0], "count": o[1]}

    def model(self, c, sh, key):
        return M.ShiftReg(c["entry"], prod(sh))

    def mstep(self, m, x, c, t):
        i = c["index"][t % len(c["index"])]
        s = x["in"].shape
        a, b = m.step(x["in"].reshape(-1), x["mask"].reshape(-1) if c["masked"] else None, i)
        return {"bit": a.reshape(s), "count": b.reshape(s)}


class JKFF(Bench):
    NAME = "jkff"
    PORTS = ["j", "k"]

    def gen(self, r, big=False):
        return dict(st=r.choice(ELT)), rshape(r)

    def build(self, c, sh, key):
        from UnarySim.kernel import JKFF as K
        d = [sw(c, "stype")]
        d = share(d)
        return self.ctor(K, (), d, key), d

    def call(self, m, x, c, t):
        return {"out": m(x["j"], x["k"])}

    def model(self, c, sh, key):
        return M.JKFF(tuple(sh))

    def mstep(self, m, x, c, t):
        return {"out": m.step(x["j"], x["k"])}


def small_rng(r, entry):
    """Source kinds usable for an index of the given power-of-two range."""
    k = ["sobol", "sobol", "rc", "race", "tc", "race10", "tc10", "sys"]
    if entry >= 4:
        k.append("lfsr")
    return r.choice(k)


class Cordiv(Bench):
    NAME = "cordiv"
    PORTS = ["a", "b"]

    def gen(self, r, big=False):
        n = r.choice(rare(r, [1, 2, 4, 4, 8], [16, 32]))
        return dict(entry=n, rng=case(r, small_rng(r, n)), dimr=r.choice([1, 2, 4, 4]), st=r.choice(ELT)), rshape(r)

    def build(self, c, sh, key):
        from UnarySim.kernel import CORDIV_kernel as K
        d = [{"entry": c["entry"], "rng": c["rng"], "dimr": c["dimr"]}, sw(c, "stype")]
        d = share(d)
        return self.ctor(K, (), d, key), d

    def call(self, m, x, c, t):
        return {"out": m(x["a"], x["b"])}

    def model(self, c, sh, key):
        seq = sequence(c["rng"].lower(), int(math.log2(c["entry"])), c["dimr"], key)
        return M.Cordiv(c["entry"], seq, prod(sh))

    def mstep(self, m, x, c, t):
        return {"out": m.step(x["a"].reshape(-1), x["b"].reshape(-1)).reshape(x["a"].shape)}


class Div(Bench):
    NAME = "div"
    PORTS = ["a", "b"]

    def gen(self, r, big=False):
        n = r.choice([1, 2, 2, 4, 8])
        return dict(mode=case(r, r.choice(["unipolar", "bipolar"])), depth_sa=r.choice([2, 3, 3, 4, 6]), depth_ss=r.choice([1, 2, 2, 3, 4]),
                    entry=n, rng=case(r, small_rng(r, n)), dimr=r.choice([1, 4, 4, 2]), **st_bt(r)), rshape(r)

    def build(self, c, sh, key):
        from UnarySim.kernel import FSUDiv as K
        d = [{"depth_sa": c["depth_sa"], "depth_ss": c["depth_ss"], "entry_kn": c["entry"], "mode": c["mode"],
              "rng": c["rng"], "dimr": c["dimr"]}, sw(c, "stype", "btype")]
        d = share(d)
        return self.ctor(K, (), d, key), d

    def call(self, m, x, c, t):
        return {"out": m(x["a"], x["b"])}

    def model(self, c, sh, key):
        seq = sequence(c["rng"].lower(), int(math.log2(c["entry"])), c["dimr"], key)
        return M.Div(c["mode"].lower(), c["depth_sa"], c["depth_ss"], c["entry"], seq, prod(sh))

    def mstep(self, m, x, c, t):
        return {"out": m.step(x["a"].reshape(-1), x["b"].reshape(-1)).reshape(x["a"].shape)}


class Sqrt(Bench):
    NAME = "sqrt"

    def gen(self, r, big=False):
        es = r.choice([2, 2, 4, 8])
        return dict(mode=case(r, r.choice(["unipolar", "bipolar"])), jk=r.choice([True, False]), emit=r.choice([True, False]),
                    entry_kn=r.choice([1, 2, 4]), entry_sr=es, rng=case(r, small_rng(r, es)), dimr=r.choice([1, 4]), **st_bt(r)), rshape(r)

    def build(self, c, sh, key):
        from UnarySim.kernel import FSUSqrt as K
        d = [{"mode": c["mode"], "jk_trace": c["jk"], "emit": c["emit"], "entry_kn": c["entry_kn"],
              "entry_sr": c["entry_sr"], "rng": c["rng"], "dimr": c["dimr"]}, sw(c, "stype", "btype")]
        d = share(d)
        return self.ctor(K, (), d, key), d

    def call(self, m, x, c, t):
        return {"out": m(x["in"])}

    def model(self, c, sh, key):
        seq = None if c["emit"] or c["jk"] else sequence(c["rng"].lower(), 2, 4, key)
        return M.Sqrt(c["mode"].lower(), c["jk"], c["emit"], c["entry_sr"], seq, prod(sh))

    def mstep(self, m, x, c, t):
        return {"out": m.step(x["in"].reshape(-1)).reshape(x["in"].shape)}


class LinearPC(Bench):
    """shape is [batch]"""
    NAME = "linearpc"
    STREAM = False
    PC = True
    ELEMENTWISE = False

    def gen(self, r, big=False):
        w = r.choice(rare(r, [2, 3, 4, 4, 5, 6], [7, 8]))
        i, o = r.choice(rare(r, [1, 2, 3, 4, 7], [17, 33, 130, 260])), r.choice(rare(r, [1, 2, 3], [5, 9]))
        mode = r.choice(["unipolar", "bipolar"])
        rng = r.choice(RATE + RATE + TEMPORAL)
        bias = r.choice([True, False])
        c = dict(i=i, o=o, mode=case(r, mode), width=w, rng=case(r, rng), dimr=r.choice([1, 1, 2, 4]),
                 w=[vals(r, i, w) for _ in range(o)], b=vals(r, o, w) if bias else None,
                 depth=r.choice([12, 12, 10, 6, 5]), scale=None, arg_scale=None)
        if i * o <= 12 and r.random() < 0.08:
            c["span"] = r.choice([100, 250, 400])
        if not (mode == "bipolar" and rng in TEMPORAL):
            c["scale"] = r.choice([None, None, 1, 2, i + bias, 0.5])
            c["arg_scale"] = r.choice([None, None, None, 1, 4])
        if self.PC and r.random() < 0.4:
            # the counter keeps its counts in the stream type
            c.update(st=r.choice(["f64", "i16", "i32", "i64"] + ["i8"] * (i < 100)), rt=r.choice(["f32", "f64"]))
        return c, [r.choice(rare(r, [1, 2, 3], [5, 9]))]

    def pshape(self, c, sh, port):
        return [sh[0], c["i"]]

    def oshape(self, c, sh, out):
        return [sh[0], c["o"]]

    def nlanes(self, c, sh):
        return sh[0]

    def weights(self, c):
        m = c["mode"].lower()
        w = give(torch.tensor(prob(c["w"], c["width"], m), dtype=torch.float))
        b = None if c["b"] is None else give(torch.tensor(prob(c["b"], c["width"], m), dtype=torch.float))
        return w, b

    def build(self, c, sh, key):
        from UnarySim.kernel import FSULinear, FSULinearPC
        w, b = self.weights(c)
        hw = {"width": c["width"], "mode": c["mode"], "rng": c["rng"], "dimr": c["dimr"]}
        if not self.PC:
            hw.update(scale=c["scale"], depth=c["depth"])
        d = [hw, {"btype": torch.float, "rtype": DT[c.get("rt", "f32")], "stype": DT[c.get("st", "f32")]}]
        d = share(d)
        K = FSULinearPC if self.PC else FSULinear
        with Entropy(key).installed():
            m = K(c["i"], c["o"], bias=b is not None, weight_ext=w, bias_ext=b, hwcfg=d[0], swcfg=d[1])
        return m, d

    def call(self, m, x, c, t):
        if not self.PC and t == 0 and c["arg_scale"] is not None:
            return {"out": m(x["in"], c["arg_scale"])}
        return {"out": m(x["in"])}

    def model(self, c, sh, key):
        k = c["rng"].lower()
        seq = sequence(k, c["width"], c["dimr"], key)
        if self.PC:
            return M.LinearPC(c["mode"].lower(), k in TEMPORAL, c["w"], c["b"], seq)
        s = c["arg_scale"] if c["arg_scale"] is not None else c["scale"]
        return M.Linear(c["mode"].lower(), k in TEMPORAL, c["w"], c["b"], seq, s, c["depth"], sh[0])

    def mstep(self, m, x, c, t):
        return {"out": m.step(x["in"])}

    def slice(self, c, sh, k):
        return c, [1], {"in": list(range(k * c["i"], (k + 1) * c["i"]))}, {"out": list(range(k * c["o"], (k + 1) * c["o"]))}


class Linear(LinearPC):
    NAME = "linear"
    STREAM = True
    PC = False


def pair(v):
    return tuple(v) if isinstance(v, (list, tuple)) else (v, v)


class ConvPC(Bench):
    """shape is [batch]"""
    NAME = "convpc"
    STREAM = False
    PC = True
    ELEMENTWISE = False
    STEPS = (20, 70)

    def gen(self, r, big=False):
        while True:
            w = r.choice([2, 3, 4, 4, 5])
            ci, co = r.choice(rare(r, [1, 1, 2], [3, 4, 5])), r.choice(rare(r, [1, 2], [3, 5]))
            k = r.choice(rare(r, [1, 2, 3, [1, 2], [2, 1], [3, 2], [2, 3]], [4, 5, [4, 1], [5, 3]]))
            s = r.choice([1, 1, 2, [1, 2], [2, 1]])
            p = r.choice([0, 1, 1, [1, 0], [0, 1], [2, 1], [1, 2], 2])
            d = r.choice([1, 1, 1, 2, [1, 2], [2, 1]])
            h, v = r.choice(rare(r, [1, 2, 3, 4], [5, 7])), r.choice(rare(r, [1, 2, 3, 4], [5, 7]))
            K, P, D, S = pair(k), pair(p), pair(d), pair(s)
            oh = (h + 2 * P[0] - D[0] * (K[0] - 1) - 1) // S[0] + 1
            ow = (v + 2 * P[1] - D[1] * (K[1] - 1) - 1) // S[1] + 1
            if oh >= 1 and ow >= 1 and oh * ow <= 20 and h * v * ci <= 64:
                break
        mode = r.choice(["unipolar", "bipolar"])
        rng = r.choice(RATE + RATE + TEMPORAL)
        bias = r.choice([True, False])
        n = ci * K[0] * K[1]
        c = dict(ci=ci, co=co, k=k, s=s, p=p, d=d, h=h, v=v, oh=oh, ow=ow, mode=case(r, mode), width=w,
                 rng=case(r, rng), dimr=r.choice([1, 1, 2, 4]), w=[vals(r, n, w) for _ in range(co)],
                 b=vals(r, co, w) if bias else None, depth=r.choice([12, 12, 10, 6]), scale=None, arg_scale=None)
        if n * co <= 12 and oh * ow <= 6 and r.random() < 0.15:
            c["span"] = r.choice([60, 100, 250])
        if not (mode == "bipolar" and rng in TEMPORAL):
            c["scale"] = r.choice([None, None, 1, 2, n + bias])
            c["arg_scale"] = r.choice([None, None, None, 4])
        if self.PC and r.random() < 0.2:
            c.update(st="f64", rt=r.choice(["f32", "f64"]))
        return c, [r.choice([1, 1, 2])]

    def pshape(self, c, sh, port):
        return [sh[0], c["ci"], c["h"], c["v"]]

    def oshape(self, c, sh, out):
        return [sh[0], c["co"], c["oh"], c["ow"]]

    def nlanes(self, c, sh):
        return sh[0]

    def build(self, c, sh, key):
        from UnarySim.kernel import FSUConv2d, FSUConv2dPC
        m = c["mode"].lower()
        K = pair(c["k"])
        w = give(torch.tensor(prob(c["w"], c["width"], m), dtype=torch.float).reshape(c["co"], c["ci"], K[0], K[1]))
        b = None if c["b"] is None else give(torch.tensor(prob(c["b"], c["width"], m), dtype=torch.float))
        hw = {"width": c["width"], "mode": c["mode"], "rng": c["rng"], "dimr": c["dimr"]}
        if not self.PC:
            hw.update(scale=c["scale"], depth=c["depth"])
        d = [hw, {"btype": torch.float, "rtype": DT[c.get("rt", "f32")], "stype": DT[c.get("st", "f32")]}]
        d = share(d)
        tup = lambda v: tuple(v) if isinstance(v, list) else v  # noqa: E731
        C = FSUConv2dPC if self.PC else FSUConv2d
        with Entropy(key).installed():
            mod = C(c["ci"], c["co"], tup(c["k"]), stride=tup(c["s"]), padding=tup(c["p"]), dilation=tup(c["d"]),
                    bias=b is not None, weight_ext=w, bias_ext=b, hwcfg=d[0], swcfg=d[1])
        return mod, d

    def call(self, m, x, c, t):
        if not self.PC and t == 0 and c["arg_scale"] is not None:
            return {"out": m(x["in"], c["arg_scale"])}
        return {"out": m(x["in"])}

    def model(self, c, sh, key):
        k = c["rng"].lower()
        seq = sequence(k, c["width"], c["dimr"], key)
        s = c["arg_scale"] if c["arg_scale"] is not None else c["scale"]
        return M.Conv2d(c["mode"].lower(), k in TEMPORAL, c["w"], c["b"], seq, pair(c["k"]), pair(c["s"]), pair(c["p"]),
                        pair(c["d"]), s, c["depth"], self.PC)

    def mstep(self, m, x, c, t):
        return {"out": m.step(x["in"])}

    def slice(self, c, sh, k):
        n = c["ci"] * c["h"] * c["v"]
        q = c["co"] * c["oh"] * c["ow"]
        return c, [1], {"in": list(range(k * n, (k + 1) * n))}, {"out": list(range(k * q, (k + 1) * q))}


class Conv(ConvPC):
    NAME = "conv"
    STREAM = True
    PC = False


class MGU(Bench):
    NAME = "mgu"
    PORTS = ["x", "h"]
    ELEMENTWISE = False
    STEPS = (20, 70)
    WEIGHT = 0.4

    def gen(self, r, big=False):
        w = r.choice([3, 4, 5])
        i, h, B = r.choice(rare(r, [1, 2, 3], [6, 20])), r.choice(rare(r, [1, 2, 3], [5, 9])), r.choice(rare(r, [1, 1, 2], [5]))
        bias = r.choice([True, False])
        c = dict(i=i, h=h, width=w, depth=r.choice([8, 10, 6]), ism=r.choice([2, 3, 4]), rng=case(r, r.choice(RATE)), dimr=r.choice([1, 1, 2, 3]),
                 wf=[vals(r, i + h, w) for _ in range(h)], wn=[vals(r, i + h, w) for _ in range(h)],
                 bf=vals(r, h, w) if bias else None, bn=vals(r, h, w) if bias else None,
                 hb=[vals(r, h, w) for _ in range(B)], mode=case(r, "bipolar"))
        return c, [B]

    def pshape(self, c, sh, port):
        return [sh[0], c["i"] if port == "x" else c["h"]]

    def oshape(self, c, sh, out):
        return [sh[0], c["h"]]

    def nlanes(self, c, sh):
        return sh[0]

    def build(self, c, sh, key):
        from UnarySim.kernel import FSUMGUCell as K
        f = lambda v: None if v is None else give(torch.tensor(prob(v, c["width"], "bipolar"), dtype=torch.float))  # noqa: E731
        d = [{"width": c["width"], "mode": c["mode"], "depth": c["depth"], "depth_ismul": c["ism"], "rng": c["rng"], "dimr": c["dimr"]},
             {"btype": torch.float, "rtype": torch.float, "stype": torch.float}]
        d = share(d)
        with Entropy(key).installed():
            m = K(c["i"], c["h"], bias=c["bf"] is not None, weight_ext_f=f(c["wf"]), bias_ext_f=f(c["bf"]),
                  weight_ext_n=f(c["wn"]), bias_ext_n=f(c["bn"]), hx_buffer=f(c["hb"]), hwcfg=d[0], swcfg=d[1])
        return m, d

    def call(self, m, x, c, t):
        return {"out": m(x["x"], x["h"])}

    def model(self, c, sh, key):
        k = c["rng"].lower()
        return M.MGU(c["wf"], c["bf"], c["wn"], c["bn"], c["hb"], sequence(k, c["width"], c["dimr"], key),
                     sequence(k, c["ism"], c["dimr"], key), c["ism"], c["depth"], sh[0])

    def mstep(self, m, x, c, t):
        return {"out": m.step(x["x"], x["h"])}

    def slice(self, c, sh, k):
        i, h = c["i"], c["h"]
        return dict(c, hb=[c["hb"][k]]), [1], {"x": list(range(k * i, (k + 1) * i)), "h": list(range(k * h, (k + 1) * h))}, \
            {"out": list(range(k * h, (k + 1) * h))}


class BSG(Bench):
    """Bitstream generator; its 'input' is the cycle index, a per-lane schedule."""
    NAME = "bsgen"
    PORTS = []

    def gen(self, r, big=False):
        sh = rshape(r)
        w = r.choice([1, 2, 3, 4, 5, 6, 8])
        mode = r.choice(["unipolar", "bipolar"])
        rng = r.choice(RATE + TEMPORAL)
        if rng == "lfsr":
            w = max(w, 2)
        n = 2 ** w
        T = r.randint(8, 60)
        pat = r.choice(["in_order", "in_order", "stall", "jump", "late", "lanes", "reverse"])
        cyc = []
        cur = r.choice([0, 0, r.randint(0, 5 * n)])
        base = r.choice([0, 0, n * r.randint(1, 1000), 10 ** 9])
        for t in range(T):
            if pat == "stall":
                cur += r.choice([0, 0, 1])
            elif pat == "jump":
                cur = r.randint(0, 4 * n)
            elif pat == "reverse":
                cur = max(0, T * 2 - t)
            else:
                cur += 1 if t else 0
            if pat == "lanes":
                cyc.append([cur + r.choice([0, 1, r.randint(0, 3 * n)]) for _ in range(prod(sh))])
            elif pat == "late":
                cyc.append([base + cur] * prod(sh))
            else:
                cyc.append([cur] * prod(sh))
        return dict(bsh=sh, mode=case(r, mode), width=w, rng=case(r, rng), dimr=r.choice([1, 1, 2, 3, 7]), b=vals(r, prod(sh), w),
                    jit=[r.choice([0, 0, -3, 3, 1]) for _ in range(prod(sh))], cyc=cyc, one=r.choice([0, 1]), pat=pat,
                    st=r.choice(ELT), rt=r.choice(["f32", "f32", "f64", "i64", "i32"]), ct=r.choice(["i64", "i64", "i32", "f32"])), sh

    def source(self, c, sh):
        """Values off the grid by up to 3/8 of a step: rounding is never a tie."""
        m = c["mode"].lower()
        n = 2 ** c["width"]
        v = np.array([min(max(b + j / 8.0, 0), n) for b, j in zip(c["b"], c["jit"])])
        return torch.tensor(v / n if m == "unipolar" else 2 * v / n - 1, dtype=torch.float).reshape(sh)

    def build(self, c, sh, key):
        from UnarySim.stream import RNG, BinGen, BSGen
        d = [{"width": c["width"], "mode": c["mode"], "rng": c["rng"], "dimr": c["dimr"]}, sw(c, "stype", "rtype")]
        d = share(d)
        with Entropy(key).installed():
            seq = RNG(d[0], d[1])()
            b = BinGen(give(self.source(c, sh)), d[0], d[1])()
            m = BSGen(b, seq, d[1])
        return m, d

    def call(self, m, x, c, t):
        cy = c["cyc"][t % len(c["cyc"])]
        if c["one"] and len(set(cy)) == 1:
            i = torch.tensor([cy[0]])
        else:
            i = torch.tensor(cy).reshape(c["bsh"])
        if c["ct"] == "f32" and max(cy) < 2 ** 20:
            i = i.float()
        elif c["ct"] == "i32" and max(cy) < 2 ** 30:
            i = i.int()
        return {"out": m(i)}

    def model(self, c, sh, key):
        return np.array(c["b"]).reshape(sh), sequence(c["rng"].lower(), c["width"], c["dimr"], key)

    def mstep(self, m, x, c, t):
        cy = np.array(c["cyc"][t % len(c["cyc"])]).reshape(m[0].shape)
        return {"out": (m[0] > m[1][cy % len(m[1])]).astype(int)}

    def slice(self, c, sh, k):
        return dict(c, bsh=[1], b=[c["b"][k]], jit=[c["jit"][k]], cyc=[[y[k]] for y in c["cyc"]]), [1], {}, {"out": [k]}


class ProgErr(Bench):
    NAME = "progerr"
    STREAM = False
    TOL = 2e-6

    def gen(self, r, big=False):
        sh = rshape(r)
        return dict(mode=case(r, r.choice(["unipolar", "bipolar"])), scale=r.choice([1, 1, 2, 0.5, 3]),
                    src=[r.choice([0, 1, -1, 2, -2.5, r.randint(-64, 64) / 64]) for _ in range(prod(sh))], st=r.choice(ELT),
                    reads=r.choice([1, 1, 2, 3])), sh

    def outs(self, c):
        return ["pp", "pe"]

    def out_dt(self, c):
        return None

    def build(self, c, sh, key):
        from UnarySim.metric.metric import ProgError as K
        d = [{"scale": c["scale"], "mode": c["mode"]}]
        d = share(d)
        s = give(torch.tensor(c["src"], dtype=torch.float).reshape(sh))
        return self.ctor(K, (s,), d, key), d

    def monitor(self, m, x, c):
        m.Monitor(x["in"])

    def read(self, m):
        o = m()
        return {"pp": o[0], "pe": o[1]}

    def mmonitor(self, m, x, c):
        m.monitor(x["in"])

    def mread(self, m):
        a, b = m.read()
        return {"pp": a, "pe": b}

    def call(self, m, x, c, t):
        self.monitor(m, x, c)
        for _ in range(c["reads"] or 1):
            o = self.read(m)
        return o

    def model(self, c, sh, key):
        return M.ProgError(np.array(c["src"], float).reshape(sh), c["scale"], c["mode"].lower())

    def mstep(self, m, x, c, t):
        self.mmonitor(m, x, c)
        return self.mread(m)

    def slice(self, c, sh, k):
        return dict(c, src=[c["src"][k]]), [1], {"in": [k]}, {"pp": [k], "pe": [k]}


class Stab(ProgErr):
    NAME = "stability"
    TOL = 2e-5

    def gen(self, r, big=False):
        c, sh = ProgErr.gen(self, r, big)
        # either far from reachable errors, or one that is reached exactly
        c["thr"] = r.choice([0.0503, 0.0497, 0.1003, 0.0213, 0.2507, 0.25, 0.5, 0.125, 0.0625, 0.75, 1])
        return c, sh

    def outs(self, c):
        return ["st"]

    def build(self, c, sh, key):
        from UnarySim.metric.metric import Stability as K
        d = [{"scale": c["scale"], "mode": c["mode"], "threshold": c["thr"]}]
        d = share(d)
        s = give(torch.tensor(c["src"], dtype=torch.float).reshape(sh))
        return self.ctor(K, (s,), d, key), d

    def read(self, m):
        return {"st": m()}

    def mread(self, m):
        return {"st": m.read()} if not m.close else {}

    def model(self, c, sh, key):
        return M.Stability(np.array(c["src"], float).reshape(sh), c["scale"], c["mode"].lower(), c["thr"])

    def slice(self, c, sh, k):
        return dict(c, src=[c["src"][k]]), [1], {"in": [k]}, {"st": [k]}


class Corr(Bench):
    NAME = "correlation"
    PORTS = ["a", "b"]
    STREAM = False
    TOL = 1e-5

    def gen(self, r, big=False):
        return dict(two=r.choice([True, True, False]), st=r.choice(ELT), reads=r.choice([1, 1, 2, 3])), [1]

    def outs(self, c):
        return ["scc"]

    def out_dt(self, c):
        return None

    def build(self, c, sh, key):
        from UnarySim.metric.metric import Correlation as K
        return K(), []

    def monitor(self, m, x, c):
        if c["two"]:
            m.Monitor(x["a"], x["b"])
        else:
            m.Monitor(x["a"])

    def read(self, m):
        return {"scc": m()}

    def mmonitor(self, m, x, c):
        m.monitor(x["a"], x["b"] if c["two"] else None)

    def mread(self, m):
        return {"scc": m.read()}

    def call(self, m, x, c, t):
        self.monitor(m, x, c)
        for _ in range(c["reads"] or 1):
            o = self.read(m)
        return o

    def model(self, c, sh, key):
        return M.Correlation(tuple(sh))

    def mstep(self, m, x, c, t):
        self.mmonitor(m, x, c)
        return self.mread(m)


ALL = {b.NAME: b() for b in (Bi2Uni, Uni2Bi, SkewedSync, Add, Mul, MulIS, ReLU, HardSigmoid, HardTanh, SignAbs, ShiftReg, JKFF,
                             Cordiv, Div, Sqrt, LinearPC, Linear, ConvPC, Conv, MGU, BSG, ProgErr, Stab, Corr)}
KERNELS = [n for n in ALL if n not in ("progerr", "stability", "correlation")]
STREAMS = [n for n in KERNELS if ALL[n].STREAM]
