"""Hybrid, fixed-point and temporal layers: construction, data, integer models."""
import numpy as np
import torch

from . import models as M
from .core import Violation
from .benches import give, pair, rare, share
from .env import Entropy, sequence, track

TEMPORAL = ("race", "tc", "race10", "tc10")
FLOATW = {"bfloat16": 8, "float16": 11, "float32": 24}


def gen_layer(r, family, conv=None):
    conv = r.choice([False, False, True]) if conv is None else conv
    c = dict(family=family, conv=conv, bias=r.choice([True, False]), key=r.getrandbits(32), wseed=r.getrandbits(31),
             wmag=r.choice([1.0, 1.0, 0.05, 0.25, 0.7, 3.0, 20.0]), wstyle=r.choice(["uniform", "uniform", "zeros", "pow2", "sparse", "outlier"]))
    if conv:
        while True:
            k = r.choice([1, 2, 3, [1, 2], [3, 2], [2, 1]])
            s, p, d = r.choice([1, 1, 2, [1, 2]]), r.choice([0, 1, [1, 0], [0, 2], 2]), r.choice([1, 1, 2, [2, 1]])
            h, v = r.choice([1, 2, 3, 4]), r.choice([1, 2, 3, 4])
            K, P, D, S = pair(k), pair(p), pair(d), pair(s)
            oh = (h + 2 * P[0] - D[0] * (K[0] - 1) - 1) // S[0] + 1
            ow = (v + 2 * P[1] - D[1] * (K[1] - 1) - 1) // S[1] + 1
            if oh >= 1 and ow >= 1:
                break
        c.update(k=k, s=s, p=p, d=d, h=h, v=v, i=r.choice(rare(r, [1, 2], [5, 12])), o=r.choice(rare(r, [1, 2, 3], [6])))
    else:
        c.update(i=r.choice(rare(r, [1, 2, 3, 5, 8], [17, 40, 150, 300])), o=r.choice(rare(r, [1, 2, 4], [7, 20])))
    rounding = r.choice(["round", "round", "floor", "ceil"])
    rounding = rounding if r.random() < 0.7 else rounding.upper()
    q = [1, 1, 1, 1, 0.9, 0.5]
    if family == "hub":
        w = r.choice(rare(r, [2, 3, 4, 5, 6], [7, 8, 9]))
        rates = ["sobol", "sobol", "rc", "lfsr", "sys"] if w >= 3 else ["sobol", "rc", "sys"]
        ri, rw = r.choice(rates), r.choice(rates)
        t = r.random()
        if t < 0.25:
            ri = r.choice(TEMPORAL)
        elif t < 0.45:
            rw = r.choice(TEMPORAL)
        c.update(hw={"widthi": w, "rngi": ri, "quantilei": r.choice(q), "widthw": w, "rngw": rw, "quantilew": r.choice(q),
                     "cycle": r.choice([2 ** (w - 1)] * 4 + [2 ** w, 10 ** 6, max(1, 2 ** (w - 2)), r.randint(1, 2 ** (w - 1))]), "rounding": rounding, "signmag": True})
    elif family == "fxp":
        c.update(hw={"widthi": r.choice(rare(r, [2, 3, 4, 6, 8], [9, 10, 11])), "quantilei": r.choice(q), "widthw": r.choice(rare(r, [2, 3, 4, 6, 8], [9, 10, 11])),
                     "quantilew": r.choice(q), "rounding": rounding})
    else:
        t = r.choice(["i", "w", "input", "weight"])
        fi = r.choice(["fxp", "fxp", "bfloat16", "float16", "float32"])
        fw = r.choice(["fxp", "fxp", "bfloat16", "float16", "float32"])
        if t[0] == "i" and fi != "fxp" and fw == "fxp":
            fw = fi
        if t[0] == "w" and fw != "fxp" and fi == "fxp":
            fi = fw
        wt = r.choice([1, 2, 3, 4, 4, 5])
        c.update(hw={"temporal": t if r.random() < 0.7 else t.upper(), "widtht": wt, "formati": fi, "widthi": r.choice([3, 4, 6, 8, 9]),
                     "quantilei": r.choice(q), "formatw": fw, "widthw": r.choice([3, 4, 6, 8, 9]), "quantilew": r.choice(q),
                     "cycle": r.choice([None, None, None, 2 ** wt, 10 ** 3, max(2, 2 ** wt - 1), max(2, 2 ** (wt - 1))]),
                     "rounding": rounding, "signmag": True})
    return c


def wshape(c):
    if c["conv"]:
        K = pair(c["k"])
        return (c["o"], c["i"], K[0], K[1])
    return (c["o"], c["i"])


def xshape(c, b):
    return (b, c["i"], c["h"], c["v"]) if c["conv"] else (b, c["i"])


STYLES = ["uniform"] * 5 + ["zeros", "pow2", "sparse", "outlier", "negative", "tiny", "constant", "normal"]


def clear(a, hw, which):
    """Whether the exponent of this data is away from a rounding boundary."""
    q = hw.get("quantile" + which, 1)
    s = scale_of(a, q)
    if s == 0:
        # a zero quantile of non-zero data leaves no meaningful exponent
        return not np.any(a)
    l2 = np.log2(s)
    if q == 1 and l2 == round(l2):
        return True
    f = l2 - np.floor(l2)
    return min(abs(f - 0.5), f, 1 - f) > 1e-3 if hw.get("rounding", "round").lower() == "round" else min(f, 1 - f) > 1e-3


def scale_of(a, q):
    a = np.asarray(a, np.float64).reshape(-1)
    lo, hi = np.quantile(a, 0.5 - q / 2), np.quantile(a, 0.5 + q / 2)
    return max(abs(lo), abs(hi))


def data(seed, shape, style, mag, hw, which, fmt=None, expand=None):
    """Reproducible data whose quantile does not sit on an exponent boundary."""
    for k in range(200):
        r = np.random.RandomState((seed + 7919 * k) % (2 ** 31))
        if style in ("uniform", "outlier"):
            a = r.uniform(-1, 1, shape)
            if style == "outlier":
                a.reshape(-1)[r.randint(a.size)] *= 50
        elif style == "zeros":
            a = np.zeros(shape)
        elif style == "pow2":
            a = r.choice([-1, 1], shape) * 2.0 ** r.randint(-4, 2, shape)
        elif style == "sparse":
            a = r.uniform(-1, 1, shape) * (r.uniform(size=shape) < 0.4)
        elif style == "negative":
            a = -r.uniform(0, 1, shape)
        elif style == "tiny":
            a = r.uniform(-1, 1, shape) * 2.0 ** -12
        elif style == "constant":
            a = np.full(shape, r.uniform(-1, 1))
        else:
            a = r.normal(size=shape)
        if style != "pow2":
            a = a * mag
        a = a.astype(np.float32)
        if fmt in ("bfloat16", "float16"):
            a = torch.tensor(a).to(getattr(torch, fmt)).float().numpy()
        if clear(expand(a) if expand else a, hw, which):
            return a
    return np.zeros(shape, np.float32)


def cols(c, x):
    """rows of operands: patches for a convolution"""
    if not c["conv"]:
        return x, None
    K, S, P, D = (pair(c[n]) for n in "kspd")
    return M.patches(x, K, S, P, D, 0)


def gen_w(c, seed, style, mag):
    fmt = c["hw"].get("formatw")
    return data(seed, wshape(c), style, mag, c["hw"], "w", fmt)


def gen_x(c, seed, b, style, mag):
    fmt = c["hw"].get("formati")
    # the temporal layers take the quantile of the unfolded patches
    ex = (lambda a: cols(c, a)[0]) if c["family"] == "tlut" and c["conv"] else None
    return data(seed, xshape(c, b), style, mag, c["hw"], "i", fmt, ex)


def build(c, w, b):
    from UnarySim.kernel import HUBConv2d, HUBLinear, FXPConv2d, FXPLinear, TLUTConv2d, TLUTLinear
    K = {"hub": (HUBLinear, HUBConv2d), "fxp": (FXPLinear, FXPConv2d), "tlut": (TLUTLinear, TLUTConv2d)}[c["family"]][c["conv"]]
    hw = share([dict(c["hw"])])[0]
    kw = dict(bias=c["bias"], weight_ext=give(torch.tensor(w)), bias_ext=None if b is None else give(torch.tensor(b)), hwcfg=hw)
    with Entropy(c["key"]).installed():
        if c["conv"]:
            tup = lambda v: tuple(v) if isinstance(v, list) else v  # noqa: E731
            m = K(c["i"], c["o"], tup(c["k"]), stride=tup(c["s"]), padding=tup(c["p"]), dilation=tup(c["d"]), **kw)
        else:
            m = K(c["i"], c["o"], **kw)
    return track(m), hw


def lawful(what, f, *a, **k):
    """Runs an ordinary torch operation on objects of the layer. It is legal for every layer, so a refusal is the layer's fault;
    the autograd engine raises without a frame of the layer's own code."""
    try:
        return f(*a, **k)
    except (RuntimeError, TypeError, ValueError, KeyError, AttributeError) as e:
        raise Violation("exception:" + type(e).__name__, "%s: %s" % (what, str(e)[:300]))


def plain(c, x, w, b):
    """The ordinary layer, differentiable."""
    F = torch.nn.functional
    if not c["conv"]:
        return F.linear(x, w, b)
    K, S, P, D = (pair(c[n]) for n in "kspd")
    return F.conv2d(x, w, b, stride=S, padding=P, dilation=D)


# ------------------------------------------------------------------- models

def exponent(a, q, rounding):
    s = scale_of(a, q)
    if s == 0:
        return -100.0
    l2 = max(np.log2(s), -100.0)
    return {"round": np.round, "floor": np.floor, "ceil": np.ceil}[rounding](l2)


def table(ctl, ctlee):
    """N(a, b): ones of the controlled source for value b during the first ones of the controller for value a."""
    n = len(ctl)
    on = np.array([(a > ctl).sum() for a in range(n)])
    cum = np.concatenate([np.zeros((n, 1), int), (np.arange(n)[:, None] > ctlee[None]).astype(int).cumsum(1)], 1)
    return cum[:, on].T


def digits(v, t, degree, cyc):
    """Sum of the base-2^t digits of |v|, each at most cyc-1, with the sign of v."""
    a = np.abs(v).astype(np.int64)
    out = np.zeros(a.shape)
    for k in range(degree):
        d = (a >> (t * k)) & (2 ** t - 1)
        if k == degree - 1:
            d = a >> (t * k)
        out = out + np.minimum(d, cyc - 1) * 2.0 ** (t * k)
    return np.sign(v) * out


def reference(c, x, w, b):
    """(candidates, tolerance): the model's output(s) in float64."""
    hw = c["hw"]
    x64, w64 = x.astype(np.float64), w.astype(np.float64)
    rows, pos = cols(c, x64)
    wm = w64.reshape(w64.shape[0], -1)
    rd = hw["rounding"].lower()
    outs = []
    if c["family"] == "hub":
        n = hw["widthi"] - 1
        ei, ew = exponent(x64, hw["quantilei"], rd), exponent(w64, hw["quantilew"], rd)
        top = min(2 ** n, hw["cycle"]) - 1
        xi = np.clip(np.abs(np.round(rows / 2 ** (ei - n))), 0, top).astype(int)
        wi = np.clip(np.abs(np.round(wm / 2 ** (ew - n))), 0, top).astype(int)
        si = sequence(hw["rngi"].lower(), n, 1, c["key"])
        sw = sequence(hw["rngw"].lower(), n, 1, c["key"])
        sg = np.sign(rows)[:, None, :] * np.sign(wm)[None]
        if hw["rngw"].lower() in TEMPORAL:
            t = table(sw, si)
            tabs = [t[xi[:, None, :], wi[None]], t[wi[None], xi[:, None, :]]]
        else:
            tabs = [table(si, sw)[xi[:, None, :], wi[None]]]
        outs = [(sg * t).sum(2) * 2.0 ** (ei + ew - n) for t in tabs]
        mag = np.abs(outs[0]).max() if outs[0].size else 0
        tol = 1e-6 * mag + 1e-30
    elif c["family"] == "fxp":
        ni, nw = hw["widthi"], hw["widthw"]
        ei, ew = exponent(x64, hw["quantilei"], rd) - (ni - 1), exponent(w64, hw["quantilew"], rd) - (nw - 1)
        xi = np.clip(np.round(rows / 2 ** ei), 1 - 2 ** ni, 2 ** ni - 1)
        wi = np.clip(np.round(wm / 2 ** ew), 1 - 2 ** nw, 2 ** nw - 1)
        outs = [xi @ wi.T * 2.0 ** (ei + ew)]
        tol = 1e-6 * (np.abs(xi) @ np.abs(wi).T * 2.0 ** (ei + ew)).max() + 1e-30
    else:
        t, cyc = hw["widtht"], 2 ** hw["widtht"] if hw["cycle"] is None else min(hw["cycle"], 2 ** hw["widtht"])
        tmp = hw["temporal"].lower()[0]
        fi, fw = hw["formati"], hw["formatw"]
        mine = fi if tmp == "i" else fw
        own = (hw["widthi"] if tmp == "i" else hw["widthw"]) - 1 if mine == "fxp" else FLOATW[mine]
        degree = -(-own // t)

        def fixed(a, q, width):
            e = exponent(a, q, rd) - width
            return np.trunc(np.clip(a / 2 ** e, 1 - 2 ** width, 2 ** width - 1)), e

        def coded(a, q):
            if mine == "fxp":
                v, e = fixed(a, q, own)
                return digits(v, t, degree, cyc) * 2.0 ** e
            m, e = np.frexp(a)
            return np.ldexp(digits(m * 2 ** own, t, degree, cyc) / 2.0 ** own, e)
        xn, wn = rows, wm
        if tmp == "i":
            xn = coded(rows, hw["quantilei"])
            if fw == "fxp" and fi == "fxp":
                v, e = fixed(wm, hw["quantilew"], hw["widthw"] - 1)
                wn = v * 2.0 ** e
        else:
            wn = coded(wm, hw["quantilew"])
            if fw == "fxp" and fi == "fxp":
                v, e = fixed(rows, hw["quantilei"], hw["widthi"] - 1)
                xn = v * 2.0 ** e
        outs = [xn @ wn.T]
        tol = 1e-5 * (np.abs(xn) @ np.abs(wn).T).max() + 1e-30
    bv = np.zeros(wm.shape[0]) if b is None else b.astype(np.float64)
    tol = tol + 1e-6 * np.abs(bv).max()
    if pos is None:
        return [o + bv for o in outs], tol
    return [M.fold(o, x.shape[0], *pos) + bv[None, :, None, None] for o in outs], tol
