"""Conservation laws checked beside the reference models; they use only inputs,
outputs and the configuration."""
import numpy as np

from .core import Violation


def need(cond, what, t):
    if not np.all(cond):
        raise Violation("law", "%s (cycle %d)" % (what, t))


class Bi2Uni:
    def __init__(self, n):
        self.hi = 2 ** (n.c["depth"] - 2)
        self.d = 0
        self.low = 0

    def step(self, x, y, ctx, t):
        self.d = self.d + 2 * x["in"] - 1 - y["out"]
        need(self.d <= 0, "more value than came in is missing from the output", t)
        self.low = np.minimum(self.low, self.d)
        need(self.d - self.low <= self.hi, "a window lost more value than the register can hold", t)


class Uni2Bi:
    def __init__(self, n):
        self.k = 0
        self.o = 0
        self.n = 0

    def step(self, x, y, ctx, t):
        self.n += 1
        self.k = self.k + x["in"]
        self.o = self.o + y["out"]
        need(self.o == (self.n + self.k) // 2, "ones count differs from floor((n+k)/2)", t)


class Sync:
    def __init__(self, n):
        self.top = 2 ** n.c["depth"] - 1
        self.d = 0

    def step(self, x, y, ctx, t):
        old = self.d
        self.d = self.d + x["a"] - y["o1"]
        need(y["o2"] == x["b"], "the second stream was changed", t)
        need((self.d >= 0) & (self.d <= self.top), "stored ones out of range", t)
        need((x["a"] != x["b"]) | (y["o1"] == x["a"]), "equal bits were changed", t)
        lone2 = (x["a"] == 0) & (x["b"] == 1)
        need(~lone2 | (old == 0) | (y["o1"] == 1), "a stored one was not released", t)
        if np.any((x["a"] == 1) & (x["b"] == 0) & (old == self.top)):
            ctx.probe("store-full")


class Add:
    def __init__(self, n):
        s, e = n.b.resolve(n.c)
        self.s = s
        self.off = (e - s) / 2 if n.c["mode"].lower() == "bipolar" else 0
        self.hi = 2.0 ** (n.c["depth"] - 2)
        self.ax = n.c["dima"]
        self.acc = 0.0
        self.free = True

    def step(self, x, y, ctx, t):
        v = self.acc + x["in"].sum(self.ax) - self.off
        if np.any(np.abs(v) > self.hi):
            self.free = False
            ctx.probe("saturated")
        if self.free:
            # scale * ones out + residue == corrected sum in, one decision per cycle
            need((v >= self.s) == (y["out"] == 1), "the residue does not explain the emitted bit", t)
        self.acc = v - self.s * y["out"]


class Mul:
    def __init__(self, n):
        from .env import sequence
        c = n.c
        seq = sequence(c["rng"].lower(), c["width"], c["dimr"], n.n["key"])
        self.bits = (np.array(c["b"]).reshape(n.sh)[..., None] > seq).astype(int)
        self.cum = np.concatenate([np.zeros(self.bits.shape[:-1] + (1,), int), self.bits.cumsum(-1)], -1)
        self.uni = c["mode"].lower() == "unipolar"
        self.n = len(seq)
        self.i = 0
        self.o = 0

    def step(self, x, y, ctx, t):
        if not self.uni:
            return
        self.i = self.i + x["in"]
        self.o = self.o + y["out"]
        full = self.cum[..., -1] * (self.i // self.n)
        want = full + np.take_along_axis(self.cum, (self.i % self.n)[..., None], -1)[..., 0]
        need(self.o == want, "ones out are not the first numbers of the source for the ones in", t)
        if np.any(self.i > self.n):
            ctx.probe("source-wrapped")


class ReLU:
    def __init__(self, n):
        d = n.c["depth"]
        self.w = 2 ** d - 1 - 2 ** (d - 1) + 1
        self.z = 0
        self.top = 0

    def step(self, x, y, ctx, t):
        need(y["out"] >= x["in"], "an input one was dropped", t)
        self.z = self.z + 2 * y["out"] - 1
        self.top = np.maximum(self.top, self.z)
        need(self.z - self.top >= -self.w, "the output sank below the rectifier's floor", t)


class SignAbs:
    def __init__(self, n):
        self.lag = 2 ** n.c["depth"]
        self.run = 0
        self.prev = None

    def step(self, x, y, ctx, t):
        need((y["sign"] != y["abs"]) == (x["in"] == 1), "sign xor magnitude is not the input", t)
        b = x["in"]
        self.run = 1 if self.prev is None else np.where(self.prev == b, self.run, 0) + 1
        self.prev = b
        need((self.run < self.lag) | (y["sign"] == 1 - b), "the sign did not follow a constant stream", t)
        if np.any(self.run >= self.lag):
            ctx.probe("sign-settled")


class Cordiv:
    def __init__(self, n):
        self.hist = [np.full(n.ps["a"], k % 2) for k in range(n.c["entry"])]

    def step(self, x, y, ctx, t):
        need((x["b"] == 0) | (y["out"] == x["a"]), "a defined quotient bit was not the dividend bit", t)


class HardTanh:
    def __init__(self, n):
        pass

    def step(self, x, y, ctx, t):
        need(y["out"] == x["in"], "the stream was changed", t)


class ShiftReg:
    """Ones count out minus in: the register only ever holds accepted bits."""

    def __init__(self, n):
        self.e = n.c["entry"]
        self.masked = n.c["masked"]
        self.cnt = None

    def step(self, x, y, ctx, t):
        need((y["count"] >= 0) & (y["count"] <= self.e), "count out of range", t)
        if self.cnt is not None:
            d = y["count"] - self.cnt
            acc = self.acc
            need(np.abs(d) <= acc, "contents changed by more than the accepted bit", t)
        self.cnt = y["count"]
        self.acc = x["mask"] if self.masked else np.ones_like(x["in"])


LAWS = {"bi2uni": Bi2Uni, "uni2bi": Uni2Bi, "skewsync": Sync, "add": Add, "mul": Mul, "relu": ReLU, "signabs": SignAbs,
        "cordiv": Cordiv, "hardtanh": HardTanh, "shiftreg": ShiftReg}


def law(node):
    k = LAWS.get(node.b.NAME)
    return k(node) if k else None
