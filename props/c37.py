"""Hardware blocks: the SystemVerilog sources under seeded clocks, glitching inputs, asynchronous resets, power-up garbage and process orders."""
import torch

from sim import rtlmodels as M
from sim import rtlworld

ID = "C37"
QUICK = 1500
RULE = ("Seeded worlds of 1-2 hardware blocks elaborated from their SystemVerilog sources with seeded parameters, power-up contents and process order; inputs move "
        "several times per cycle, clocks stall, asynchronous resets strike at any point (between edges, across edges, during pulses); after every event the outputs are "
        "compared with a reference machine and, where a software kernel exists, with the real kernel fed the bits sampled at the edges.")
REAL = ["hw/kernel/abs, sign, jkff, div, sqrt", "hw/stream/shuffle, shuffle_int", "kernel/jkff.py, signabs.py, sqrt.py", "stream/shuffle.py"]
STUB = ["SystemVerilog simulator (two-state, sim/rtl.py)", "clock, reset and input drivers"]

# name -> (file, parameters(r), inputs(params) -> {port: max value}, random-number ports)
TABLE = {
    "Sign": ("kernel/sign/Sign.sv", lambda r: dict(DEP=r.choice([2, 3, 3, 4, 5])), lambda p: dict(value=1)),
    "Abs": ("kernel/abs/Abs.sv", lambda r: dict(DEP=r.choice([2, 3, 3, 4, 5])), lambda p: dict(value=1)),
    "JKFF": ("kernel/jkff/JKFF.sv", lambda r: {}, lambda p: dict(J=1, K=1)),
    "CORDIV_kernel": ("kernel/div/CORDIV_kernel.sv", "kn", lambda p: dict(randNum=p["DEP"] - 1, dividend=1, divisor=1)),
    "CORDIV_kernel_IS_U": ("kernel/div/CORDIV_kernel_IS_U.sv", "is", lambda p: dict(randNum=2 ** p["BW"] - 1, randNumKernel=p["DEP"] - 1, dividend=1, divisor=1)),
    "CORDIV_kernel_IS_B": ("kernel/div/CORDIV_kernel_IS_B.sv", "is", lambda p: dict(randNum=2 ** p["BW"] - 1, randNumKernel=p["DEP"] - 1, dividend=1, divisor=1)),
    "GDIV_U": ("kernel/div/GDIV_U.sv", lambda r: dict(DEP=r.choice([2, 3, 4, 5])), lambda p: dict(randNum=2 ** p["DEP"] - 1, dividend=1, divisor=1)),
    "GDIV_B": ("kernel/div/GDIV_B.sv", lambda r: dict(DEP=r.choice([2, 3, 4, 5])), lambda p: dict(randNum=2 ** p["DEP"] - 1, dividend=1, divisor=1)),
    "ISCBDIV_U": ("kernel/div/ISCBDIV_U.sv", "iscb", lambda p: dict(randNum=p["DEP_KERNEL"] - 1, dividend=1, divisor=1)),
    "ISCBDIV_B": ("kernel/div/ISCBDIV_B.sv", "iscb_b", lambda p: dict(randNum=p["DEP_KERNEL"] - 1, dividend=1, divisor=1)),
    "Bi2Uni": ("stream/shuffle/Bi2Uni.sv", lambda r: dict(DEP=r.choice([3, 3, 4, 5, 6])), lambda p: {"in": 1}),
    "Uni2Bi": ("stream/shuffle/Uni2Bi.sv", lambda r: {}, lambda p: {"in": 1}),
    "SkewedSync": ("stream/shuffle/SkewedSync.sv", lambda r: dict(DEP=r.choice([1, 2, 2, 3, 4])), lambda p: dict(in0=1, in1=1)),
    "SkewedSyncInt": ("stream/shuffle_int/SkewedSyncInt.sv", "int", lambda p: dict(in0=2 ** p["BWIN"] - 1, in1=1)),
    "BISQRT_S_JK_U": ("kernel/sqrt/BISQRT_S_JK_U.sv", lambda r: {}, lambda p: {"in": 1}),
    "BISQRT_S_JK_B": ("kernel/sqrt/BISQRT_S_JK_B.sv", lambda r: dict(DEP=r.choice([3, 4, 5])), lambda p: {"in": 1}),
    "BISQRT_S_IS_U": ("kernel/sqrt/BISQRT_S_IS_U.sv", "kn", lambda p: {"randNum": p["DEP"] - 1, "in": 1}),
    "BISQRT_S_IS_B": ("kernel/sqrt/BISQRT_S_IS_B.sv", "kn", lambda p: {"randNum": p["DEP"] - 1, "in": 1}),
    "BISQRT_O_U": ("kernel/sqrt/BISQRT_O_U.sv", "emit", lambda p: {"randNum": p["DEP_SR"] - 1, "in": 1}),
    "BISQRT_O_B": ("kernel/sqrt/BISQRT_O_B.sv", "emit", lambda p: {"randNum": p["DEP_SR"] - 1, "in": 1}),
    "GSQRT_U": ("kernel/sqrt/GSQRT_U.sv", lambda r: dict(DEP=r.choice([2, 3, 4, 5])), lambda p: {"randNum": 2 ** p["DEP"] - 1, "in": 1}),
    "GSQRT_B": ("kernel/sqrt/GSQRT_B.sv", lambda r: dict(DEP=r.choice([2, 3, 4, 5])), lambda p: {"randNum": 2 ** p["DEP"] - 1, "in": 1}),
}
TWINS = ["Sign", "Abs", "JKFF", "Bi2Uni", "Uni2Bi", "SkewedSync", "BISQRT_S_JK_U"]
SAME_CYCLE = ("SkewedSync", "BISQRT_S_JK_U")


def params(r, how):
    if callable(how):
        return how(r)
    if how == "kn":
        d = r.choice([1, 2, 2, 4, 8])
        return dict(DEP=d, DEPLOG=max(1, d.bit_length() - 1))
    if how == "is":
        d = r.choice([1, 2, 4])
        return dict(BW=r.choice([3, 4, 6, 8]), DEP=d, DEPLOG=max(1, d.bit_length() - 1))
    if how in ("iscb", "iscb_b"):
        d = r.choice([1, 2, 4])
        return dict({"DEP_ABS": r.choice([2, 3, 4])} if how == "iscb_b" else {}, DEP_KERNEL=d, DEPLOG_KERNEL=max(1, d.bit_length() - 1), DEP_SYNC=r.choice([1, 2, 3]))
    if how == "int":
        d = r.choice([2, 2, 3, 4])
        return dict(DEP=d, BWIN=r.randint(1, d))
    if how == "emit":
        d = r.choice([2, 4, 4, 8])
        return dict(DEP=r.choice([3, 3, 4, 5]), DEP_SR=d, DEPLOG_SR=d.bit_length() - 1)


class Twin:
    """The software kernel of a block, stepped on the bits sampled at rising edges."""

    def __init__(self, name, p):
        import UnarySim.kernel as K
        import UnarySim.stream as S
        f = torch.float
        self.name = name
        sw = dict(stype=f, btype=f)
        if name in ("Sign", "Abs"):
            self.m = K.FSUSignAbs(dict(depth=p["DEP"]), sw)
        elif name == "JKFF":
            self.m = K.JKFF(dict(stype=torch.int8))
        elif name == "Bi2Uni":
            self.m = S.Bi2Uni(dict(depth=p["DEP"] + 1), sw)
        elif name == "Uni2Bi":
            self.m = S.Uni2Bi(dict(depth=4), sw)
        elif name == "SkewedSync":
            self.m = S.SkewedSync(dict(depth=p["DEP"]), sw)
        else:
            self.m = K.FSUSqrt(dict(mode="unipolar", jk_trace=True, emit=False, entry_kn=1, entry_sr=2, rng="Sobol", dimr=4), sw)
        self.last = None
        self.start = dict(sign=0) if name in ("Sign", "Abs") else dict(out=0)

    def step(self, i):
        def t(x, ty=torch.float):
            return torch.tensor([x]).type(ty)
        n = self.name
        if n in ("Sign", "Abs"):
            s, a = self.m(t(i["value"]))
            self.last = dict(sign=int(s))
        elif n == "JKFF":
            self.last = dict(out=int(self.m(t(i["J"], torch.int8), t(i["K"], torch.int8))))
        elif n == "SkewedSync":
            a, b = self.m(t(i["in0"]), t(i["in1"]))
            self.last = dict(out0=int(a), out1=int(b))
        else:
            self.last = dict(out=int(self.m(t(i["in"]))))
        return self.last


def block(name):
    file, par, ins = TABLE[name]
    return dict(file=file, top=name, par=lambda r: params(r, par), ins=ins, ref=getattr(M, name),
                twin=(lambda p: Twin(name, p)) if name in TWINS else None, same=name in SAME_CYCLE, lib=sorted(TABLE))


WORLD = rtlworld.World({n: block(n) for n in TABLE}, ["saturated", "left-range"])
PROBES = WORLD.probes
gen, run, shrink = WORLD.gen, WORLD.run, WORLD.shrink
