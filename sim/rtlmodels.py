"""Reference machines for the hardware blocks.

`reset()` is the state an asynchronous reset leaves, `outs(i)` the outputs for
the inputs i, `tick(i)` one rising clock edge with the inputs i.  `bad` is set
once an accumulator the block does not guard has left its range; nothing is
claimed from there to the next reset."""


def clamp(v, lo, hi):
    return lo if v < lo else hi if v > hi else v


class Block:
    bad = False
    seen = None

    def __init__(self, p):
        self.p = p
        self.probes = set()
        self.reset()


class Sign(Block):
    def reset(self):
        self.bad = False
        self.n = 2 ** self.p["DEP"]
        self.c = self.n // 2

    def outs(self, i):
        return dict(sign=int(self.c < self.n // 2))

    def tick(self, i):
        v = self.c + (1 if i["value"] else -1)
        if not 0 <= v < self.n:
            self.probes.add("saturated")
        self.c = clamp(v, 0, self.n - 1)


class Abs(Sign):
    def outs(self, i):
        s = int(self.c < self.n // 2)
        return dict(sign=s, abs=i["value"] ^ s)


class JKFF(Block):
    def reset(self):
        self.bad = False
        self.q = 0

    def outs(self, i):
        return dict(out=self.q)

    def tick(self, i):
        self.q = {(0, 0): self.q, (1, 0): 1, (0, 1): 0, (1, 1): 1 - self.q}[(i["J"], i["K"])]


class CORDIV_kernel(Block):
    def reset(self):
        self.bad = False
        self.h = [k % 2 for k in range(self.p["DEP"])]

    def outs(self, i):
        return dict(quotient=i["dividend"] if i["divisor"] else self.h[i["randNum"]])

    def tick(self, i):
        self.h = self.h[1:] + [self.outs(i)["quotient"]]


class CORDIV_kernel_IS_U(Block):
    def reset(self):
        self.bad = False
        self.a = self.b = 0
        self.k = CORDIV_kernel(self.p)

    def mags(self):
        return self.a, self.b, 0

    def outs(self, i):
        a, b, s = self.mags()
        q = self.k.outs(dict(randNum=i["randNumKernel"], dividend=int(a > i["randNum"]), divisor=int(b > i["randNum"])))["quotient"]
        return dict(quotient=q ^ s)

    def lim(self):
        return 0, 2 ** self.p["BW"] - 1

    def tick(self, i):
        a, b, s = self.mags()
        self.k.tick(dict(randNum=i["randNumKernel"], dividend=int(a > i["randNum"]), divisor=int(b > i["randNum"])))
        self.a += 1 if i["dividend"] else -1
        self.b += 1 if i["divisor"] else -1
        lo, hi = self.lim()
        if not (lo <= self.a <= hi and lo <= self.b <= hi):
            self.bad = True


class CORDIV_kernel_IS_B(CORDIV_kernel_IS_U):
    def mags(self):
        return abs(self.a), abs(self.b), int(self.a < 0) ^ int(self.b < 0)

    def lim(self):
        n = 2 ** (self.p["BW"] - 1)
        return -n + 1, n - 1


class GDIV_U(Block):
    def reset(self):
        self.bad = False
        self.n = 2 ** self.p["DEP"]
        self.c = self.n // 2

    def outs(self, i):
        return dict(quotient=int(self.c > i["randNum"]))

    def updown(self, inc, dec):
        v = self.c + inc - dec
        if not 0 <= v < self.n:
            self.probes.add("saturated")
        self.c = clamp(v, 0, self.n - 1)

    def tick(self, i):
        self.updown(i["dividend"], self.outs(i)["quotient"] & i["divisor"])


class GDIV_B(GDIV_U):
    def reset(self):
        GDIV_U.reset(self)
        self.d = 0

    def tick(self, i):
        q = self.outs(i)["quotient"]
        same = int(i["divisor"] == i["dividend"])
        # the magnitude of the divisor times the quotient: agree when the divisor repeats and the quotient is low, or changes and it is high
        x = int((i["divisor"] == self.d) == (q == 0))
        self.updown(same & x, (1 - same) & (1 - x))
        self.d = i["divisor"]


class GSQRT_U(GDIV_U):
    def reset(self):
        GDIV_U.reset(self)
        self.d = 0

    def outs(self, i):
        return dict(out=int(self.c > i["randNum"]))

    def dec(self, q):
        return q & self.d

    def tick(self, i):
        q = self.outs(i)["out"]
        self.updown(i["in"], self.dec(q))
        self.d = q


class GSQRT_B(GSQRT_U):
    def dec(self, q):
        return int(q == self.d)


class Bi2Uni(Block):
    def reset(self):
        self.bad = False
        self.acc = 0
        self.lo, self.hi = -2 ** (self.p["DEP"] - 1), 2 ** (self.p["DEP"] - 1) - 1

    def outs(self, i):
        return dict(out=int(self.acc > 0))

    def tick(self, i):
        self.acc += 2 * i["in"] - 1 - int(self.acc > 0)
        if not self.lo <= self.acc <= self.hi:
            self.bad = True


class Uni2Bi(Block):
    def reset(self):
        self.bad = False
        self.n = self.k = 0
        self.q = 0

    def outs(self, i):
        return dict(out=self.q)

    def tick(self, i):
        before = (self.n + self.k) // 2
        self.n += 1
        self.k += i["in"]
        self.q = (self.n + self.k) // 2 - before


class SkewedSync(Block):
    def reset(self):
        self.bad = False
        self.c = 0

    def outs(self, i):
        a, b = i["in0"], i["in1"]
        full = self.c == 2 ** self.p["DEP"] - 1
        if a == b:
            o = a
        elif a:
            o = int(full)
        else:
            o = int(self.c > 0)
        return dict(out0=o, out1=b)

    def tick(self, i):
        o = self.outs(i)["out0"]
        if i["in0"] and o and not i["in1"]:
            self.probes.add("saturated")
        self.c += i["in0"] - o


class SkewedSyncInt(Block):
    """Stores integers while in1 is zero and delivers everything stored when in1 is one."""

    def reset(self):
        self.bad = False
        self.c = 0

    def outs(self, i):
        s = self.c + i["in0"]
        m = 2 ** self.p["DEP"] - 1
        if s > m:
            self.probes.add("saturated")
        return dict(out0=min(s, m) if i["in1"] else 0, out1=i["in1"])

    def tick(self, i):
        # whatever does not fit the store and was not delivered is lost
        self.c = min(self.c + i["in0"] - self.outs(i)["out0"], 2 ** self.p["DEP"] - 1)


class Part:
    """Composition helpers."""

    def anybad(self, *parts):
        if any(x.bad for x in parts):
            self.bad = True


class ISCBDIV_U(Block, Part):
    def reset(self):
        self.bad = False
        self.s = SkewedSync(dict(DEP=self.p["DEP_SYNC"]))
        self.k = CORDIV_kernel(dict(DEP=self.p["DEP_KERNEL"]))

    def wire(self, i):
        si = dict(in0=i["dividend"], in1=i["divisor"])
        so = self.s.outs(si)
        return si, dict(randNum=i["randNum"], dividend=so["out0"], divisor=so["out1"])

    def outs(self, i):
        return self.k.outs(self.wire(i)[1])

    def tick(self, i):
        si, ki = self.wire(i)
        self.s.tick(si)
        self.k.tick(ki)


class ISCBDIV_B(Block, Part):
    def reset(self):
        self.bad = False
        p = self.p
        self.aa, self.ab = Abs(dict(DEP=p["DEP_ABS"])), Abs(dict(DEP=p["DEP_ABS"]))
        self.ua, self.ub = Bi2Uni(dict(DEP=3)), Bi2Uni(dict(DEP=3))
        self.d = ISCBDIV_U(p)
        self.b = Uni2Bi({})

    def outs(self, i):
        s = self.aa.outs(dict(value=i["dividend"]))["sign"] ^ self.ab.outs(dict(value=i["divisor"]))["sign"]
        return dict(quotient=self.b.outs({})["out"] ^ s)

    def tick(self, i):
        ia, ib = dict(value=i["dividend"]), dict(value=i["divisor"])
        a, b = self.aa.outs(ia)["abs"], self.ab.outs(ib)["abs"]
        di = dict(randNum=i["randNum"], dividend=self.ua.outs({})["out"], divisor=self.ub.outs({})["out"])
        q = self.d.outs(di)["quotient"]
        self.aa.tick(ia)
        self.ab.tick(ib)
        self.ua.tick({"in": a})
        self.ub.tick({"in": b})
        self.d.tick(di)
        self.b.tick({"in": q})
        self.anybad(self.ua, self.ub)


class BISQRT_S_JK_U(Block, Part):
    def reset(self):
        self.bad = False
        self.t = JKFF({})
        self.u = Bi2Uni(dict(DEP=self.p["DEP"])) if "DEP" in self.p else None

    def outs(self, i):
        return dict(out=i["in"] | self.t.q)

    def tick(self, i):
        o = self.outs(i)["out"]
        if self.u is None:
            j = o
        else:
            j = self.u.outs({})["out"]
            self.u.tick({"in": o})
            self.anybad(self.u)
        self.t.tick(dict(J=j, K=1))


class BISQRT_S_JK_B(BISQRT_S_JK_U):
    pass


class BISQRT_S_IS_U(Block, Part):
    def reset(self):
        self.bad = False
        self.f = self.q = 0
        self.k = CORDIV_kernel(self.p)

    def ki(self, i, o):
        dv = (1 - self.f) & o
        return dict(randNum=i["randNum"], dividend=dv, divisor=self.f | dv)

    def outs(self, i):
        return dict(out=self.q)

    def tick(self, i):
        ki = self.ki(i, self.q)
        self.q = i["in"] | self.k.outs(ki)["quotient"]
        self.k.tick(ki)
        self.f = 1 - self.f


class BISQRT_S_IS_B(BISQRT_S_IS_U):
    def reset(self):
        BISQRT_S_IS_U.reset(self)
        self.u = Bi2Uni(dict(DEP=3))

    def outs(self, i):
        return dict(out=i["in"] | self.k.outs(self.ki(i, self.u.outs({})["out"]))["quotient"])

    def tick(self, i):
        o = self.outs(i)["out"]
        ki = self.ki(i, self.u.outs({})["out"])
        self.k.tick(ki)
        self.u.tick({"in": o})
        self.f = 1 - self.f
        self.anybad(self.u)


class BISQRT_O_U(Block, Part):
    BIP = False

    def reset(self):
        self.bad = False
        self.h = [k % 2 for k in range(self.p["DEP_SR"])]
        self.acc = 0
        self.lo, self.hi = -2 ** (self.p["DEP"] - 1), 2 ** (self.p["DEP"] - 1) - 1
        self.u = Bi2Uni(dict(DEP=3)) if self.BIP else None

    def outs(self, i):
        return dict(out=int(self.acc > 0))

    def tick(self, i):
        o = int(self.acc > 0)
        e = self.h[i["randNum"]] & (self.u.outs({})["out"] if self.u else o)
        self.h = self.h[1:] + [1 - o]
        self.acc += i["in"] + e - o
        if not self.lo <= self.acc <= self.hi:
            self.bad = True
        if self.u:
            self.u.tick({"in": o})
            self.anybad(self.u)


class BISQRT_O_B(BISQRT_O_U):
    BIP = True
