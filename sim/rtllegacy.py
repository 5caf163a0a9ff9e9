"""Reference machines for the published unary hardware (hw/*/old) and the software kernels that are its twins."""
import torch

from sim.rtlmodels import Block, clamp


def sobol(n):
    """First period of the first Sobol dimension with n bits, Gray-code order, starting at 0."""
    x, out = 0, []
    for k in range(2 ** n):
        out.append(x)
        low = 0
        while k >> low & 1:
            low += 1
        if low < n:
            x ^= 1 << (n - 1 - low)
    return out


SEQ = {n: sobol(n) for n in range(2, 11)}


class Source:
    """A Sobol source stepped by an enable; `off` once its first period is over (the wrapped order is not claimed)."""

    def __init__(self, n=8):
        self.n, self.k = n, 0

    @property
    def off(self):
        return self.k >= 2 ** self.n

    @property
    def v(self):
        return SEQ[self.n][self.k] if not self.off else 0

    def step(self, en):
        self.k += int(bool(en))


class Sobol(Block):
    """In every period of 2^n enabled edges each number appears once; in the first one in the Sobol order."""

    def reset(self):
        self.bad = False
        self.broken = None
        self.s = Source(self.p["n"])
        self.got = None
        self.period = []

    def watch(self, got, i):
        self.got = got["sobolSeq"]

    def outs(self, i):
        return {} if self.s.off else dict(sobolSeq=self.s.v)

    def tick(self, i):
        if not i["enable"]:
            return
        self.s.step(1)
        self.period.append(self.got)
        if self.got in self.period[:-1]:
            self.broken = "number %d appears twice among %d consecutive draws" % (self.got, len(self.period))
        if len(self.period) == 2 ** self.p["n"]:
            self.period = []
            self.probes.add("full-period")


class Held(Block):
    """Operand registers with load strobes and the sources behind them."""

    def reset(self):
        self.bad = False
        self.a = self.b = 0
        self.s = [Source(), Source()]
        self.init()

    def init(self):
        pass

    def load(self, i):
        if i.get("loadA"):
            self.a = i["iA"]
        if i.get("loadB"):
            self.b = i["iB"]

    def spent(self):
        self.bad = any(s.off for s in self.s)


class UMulU(Held):
    def outs(self, i):
        return dict(oC=int(i["iA"] and self.b > self.s[0].v))

    def tick(self, i):
        self.load(i)
        self.s[0].step(i["iA"])
        self.s[1].step(not i["iA"])
        self.spent()


class UMulB(UMulU):
    def outs(self, i):
        return dict(oC=int(self.b > self.s[0].v) if i["iA"] else int(not self.b > self.s[1].v))


class GMulU(Held):
    """Both operands turned into streams, by own sources or by the numbers on the ports."""

    def bits(self, i):
        x, y = (i["sobolSeqA"], i["sobolSeqB"]) if "sobolSeqA" in i else (self.s[0].v, self.s[1].v)
        return int(self.a > x), int(self.b > y)

    def outs(self, i):
        x, y = self.bits(i)
        return dict(oC=x & y)

    def tick(self, i):
        self.load(i)
        for s in self.s:
            s.step("sobolSeqA" not in i)
        self.spent()


class GMulB(GMulU):
    def outs(self, i):
        x, y = self.bits(i)
        return dict(oC=1 - (x ^ y))


class TMulU(Held):
    """The first operand is the length of a burst of ones (one cycle after it starts to count)."""

    def init(self):
        self.stop = 1

    def num(self, i):
        return i["sobolSeq"] if "sobolSeq" in i else self.s[0].v

    def outs(self, i):
        return dict(oC=int(not self.stop and self.b > self.num(i)), stop=self.stop)

    def tick(self, i):
        if "sobolSeq" not in i:
            self.s[0].step(not self.stop)
        if i["loadA"]:
            self.a, self.stop = i["iA"], 1
        elif self.a:
            self.a, self.stop = self.a - 1, 0
        else:
            self.stop = 1
        if i["loadB"]:
            self.b = i["iB"]
        self.spent()


class TMulB(TMulU):
    def outs(self, i):
        return dict(oC=int((not self.stop) == (self.b > self.num(i))), stop=self.stop)


def ones(v):
    return bin(v).count("1")


class USAdd(Block):
    """Scaled addition: after t cycles the ones out are the total ones in divided by the number of inputs, rounded down."""

    def reset(self):
        self.bad = False
        self.inn = self.out = 0

    def outs(self, i):
        return dict(out=(self.inn + ones(i["in"])) // self.p["n"] - self.out)

    def tick(self, i):
        self.out += self.outs(i)["out"]
        self.inn += ones(i["in"])


class UNSAdd(Block):
    """Non-scaled unipolar addition, one cycle late: a one as long as more ones came in than went out."""

    def reset(self):
        self.bad = False
        self.inn = self.out = 0

    def outs(self, i):
        return dict(out=int(self.inn > self.out))

    def tick(self, i):
        self.out += self.outs(i)["out"]
        self.inn += ones(i["in"])
        self.bad = 2 * self.inn > 1023


class Count(Block):
    def reset(self):
        self.bad = False

    def outs(self, i):
        return dict(out=ones(i["in"]))

    def tick(self, i):
        pass


class MuxAdd(Block):
    def reset(self):
        self.bad = False
        self.q = 0

    def outs(self, i):
        return dict(out=self.q)

    def tick(self, i):
        self.q = i["in"] >> i["sel"] & 1


class OrAdd(MuxAdd):
    def tick(self, i):
        self.q = int(i["in"] != 0)


class Select(Count):
    def outs(self, i):
        return dict(out=i["in"] >> i["randNum"] & 1)


class FullAdd(Count):
    def outs(self, i):
        s = i["a"] + i["b"] + i["ci"]
        return dict(sum=s & 1, co=s >> 1)


class And2(Count):
    def outs(self, i):
        return dict(out=int(i["in"] == 3))


class Reg(Block):
    """A binary operator behind `stages` registers."""
    stages, port = 1, "c"

    def reset(self):
        self.bad = False
        self.q = [0] * self.stages

    def op(self, i):
        a, b = (i["a"], i["b"]) if "a" in i else (i["iA"], i["iB"])
        return a + b if self.p["op"] == "+" else a * b

    def outs(self, i):
        return {self.port: self.q[-1]}

    def tick(self, i):
        self.q = [self.op(i)] + self.q[:-1]


class Reg2(Reg):
    stages, port = 2, "oC"


class Mac(Block):
    def reset(self):
        self.bad = False
        self.q = 0

    def outs(self, i):
        return dict(oC=self.q)

    def tick(self, i):
        self.q = i["iA"] * i["iB"] + (self.q if i["acc_en"] else i["iC"]) & 2 ** 20 - 1


class Cordiv(Block):
    def reset(self):
        self.bad = False
        self.h = [0, 0]

    def outs(self, i):
        s = self.h[i["srSel"]]
        return dict(srOut=s, quotient=i["dividend"] if i["divisor"] else s)

    def tick(self, i):
        if i["divisor"]:
            self.h = [i["dividend"], self.h[0]]


class Gaines(Block):
    """Saturating counter compared with the random number: division, and with its own delayed output square root."""

    def reset(self):
        self.bad = False
        self.n = 2 ** self.p["n"]
        self.c = self.n // 2
        self.last = 0

    def q(self, i):
        return int(self.c >= i["randNum"])

    def outs(self, i):
        return {"quotient" if "dividend" in i else "out": self.q(i)}

    def tick(self, i):
        q = self.q(i)
        if "dividend" in i:
            up, dn = i["dividend"], q & i["divisor"]
        else:
            up, dn = i["in"], q & self.last
        if up != dn:
            v = self.c + up - dn
            if not 0 <= v < self.n:
                self.probes.add("saturated")
            self.c = clamp(v, 0, self.n - 1)
        self.last = q


class JKRoot(Block):
    """The trace toggles on every one of the output and is set by a zero; while it is set the output is the input."""

    def reset(self):
        self.bad = False
        self.t = 1

    def outs(self, i):
        return dict(out=i["in"] if self.t else 1)

    def tick(self, i):
        self.t = 1 - self.t if self.outs(i)["out"] else 1


def elem(v, k, w=8):
    return v >> (k * w) & (2 ** w - 1)


class UMac(Block):
    """16 multipliers into one adder."""

    def reset(self):
        self.bad = False
        self.m = [(UMulB if self.p["bi"] else UMulU)(self.p) for _ in range(16)]
        self.add = (USAdd if self.p["scaled"] else UNSAdd)(dict(n=16))

    def each(self, i):
        return [dict(iA=i["iA"] >> k & 1, iB=elem(i["iB"], k), loadB=i["loadB"]) for k in range(16)]

    def sum(self, i):
        return {"in": sum(m.outs(x)["oC"] << k for k, (m, x) in enumerate(zip(self.m, self.each(i))))}

    def outs(self, i):
        return dict(oC=self.add.outs(self.sum(i))["out"])

    def tick(self, i):
        self.add.tick(self.sum(i))
        for m, x in zip(self.m, self.each(i)):
            m.tick(x)
        self.bad = self.bad or self.add.bad or any(m.bad for m in self.m)


class GMac(UMac):
    """16 stream pairs into a multiplexer steered by a 4-bit source, or into an OR gate."""

    def reset(self):
        self.bad = False
        self.m = [(GMulB if self.p["bi"] else GMulU)(self.p) for _ in range(16)]
        self.sel = Source(4)
        self.q = 0

    def each(self, i):
        return [dict(iA=elem(i["iA"], k), iB=elem(i["iB"], k), loadA=i["loadA"], loadB=i["loadB"]) for k in range(16)]

    def outs(self, i):
        return dict(oC=self.q)

    def tick(self, i):
        s = self.sum(i)["in"]
        self.q = s >> self.sel.v & 1 if self.p["scaled"] else int(s != 0)
        self.sel.step(1)
        for m, x in zip(self.m, self.each(i)):
            m.tick(x)
        self.bad = self.bad or self.p["scaled"] and self.sel.off or any(m.bad for m in self.m)


# -- software twins ----------------------------------------------------------
SW = dict(stype=torch.float, btype=torch.float, rtype=torch.float)


class SobolTwin:
    """The software's number sequence of the same width."""

    def __init__(self, p):
        from UnarySim.stream import RNG
        self.seq = RNG(dict(width=p["n"], dimr=1, rng="Sobol"), SW)()
        self.k = 0
        self.start = dict(sobolSeq=int(self.seq[0]))
        self.last = None

    def step(self, i):
        self.k += i["enable"]
        self.last = dict(sobolSeq=int(self.seq[self.k])) if self.k < len(self.seq) else {}
        return self.last


class Replayed:
    """A software kernel with a fixed operand, made anew and brought up to date whenever the hardware loads an operand."""

    def __init__(self, p):
        self.p = p
        self.hist = []
        self.b = 0
        self.start = {}
        self.last = None
        self.m = self.make(0)

    def step(self, i):
        out = int(self.feed(self.m, i["iA"]))
        self.hist.append(i["iA"])
        if i["loadB"] and i["iB"] != self.b:
            self.b = i["iB"]
            self.m = self.make(self.b)
            for a in self.hist:
                self.feed(self.m, a)
            self.moved()
        self.last = dict(oC=out)
        return self.last

    def moved(self):
        pass


class UMulTwin(Replayed):
    def make(self, b):
        from UnarySim.kernel import FSUMul
        v = b / 128 - 1 if self.p["bi"] else b / 256
        return FSUMul(in_1_prob=torch.tensor([v]), hwcfg=dict(width=8, mode="bipolar" if self.p["bi"] else "unipolar", static=True, rng="Sobol", dimr=1), swcfg=SW)

    def feed(self, m, a):
        return m(torch.tensor([float(a)]))


class UMacTwin(Replayed):
    """The counting half of the streaming layer, and one accumulator that is not restarted by a load."""

    def __init__(self, p):
        from UnarySim.kernel import FSUAdd
        self.acc = FSUAdd(dict(mode="bipolar" if p["bi"] else "unipolar", scale=16, dima=0, depth=12, entry=16), SW)
        super().__init__(p)

    def make(self, b):
        from UnarySim.kernel import FSULinearPC
        w = torch.tensor([[float(elem(b, k)) for k in range(16)]])
        w = w / 128 - 1 if self.p["bi"] else w / 256
        return FSULinearPC(16, 1, bias=False, weight_ext=w, hwcfg=dict(width=8, mode="bipolar" if self.p["bi"] else "unipolar", rng="Sobol", dimr=1), swcfg=SW)

    def feed(self, m, a):
        return m(torch.tensor([[float(a >> k & 1) for k in range(16)]]))

    def step(self, i):
        n = super().step(i)["oC"]
        self.last = dict(oC=int(self.acc(torch.tensor([[[float(n)]]]))))
        return self.last


class UAddTwin:
    def __init__(self, p, scale=None):
        from UnarySim.kernel import FSUAdd
        self.n = p["n"]
        self.m = FSUAdd(dict(mode="unipolar", scale=scale or p["n"], dima=0, depth=14, entry=p["n"]), SW)
        self.start = dict(out=0)
        self.last = None

    def step(self, i):
        self.last = dict(out=int(self.m(torch.tensor([float(i["in"] >> k & 1) for k in range(self.n)]))))
        return self.last


class JKTwin:
    def __init__(self, p):
        from UnarySim.kernel import FSUSqrt
        self.m = FSUSqrt(dict(mode="unipolar", jk_trace=True, emit=False, entry_kn=1, entry_sr=2, rng="Sobol", dimr=4), SW)
        self.start = {}
        self.last = None

    def step(self, i):
        self.last = dict(out=int(self.m(torch.tensor([float(i["in"])]))))
        return self.last
