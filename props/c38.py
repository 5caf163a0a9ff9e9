"""Published hardware: multipliers, adders, number sources and their multiply-accumulate arrays under seeded clocks, resets and loads."""
from sim import rtllegacy as L
from sim import rtlworld

ID = "C38"
QUICK = 1000
RULE = ("Seeded worlds of 1-2 blocks of the published hardware (hw/kernel/old, hw/stream/old) elaborated from their SystemVerilog sources with seeded power-up contents "
        "and process order; operands are loaded at seeded cycles, enables stall, inputs glitch, asynchronous resets strike at any point; after every event the outputs are "
        "compared with a reference machine (or the permutation law of the number source) and, where a software kernel exists, with the real kernel.")
REAL = ["hw/kernel/old", "hw/stream/old", "stream/gen.py RNG", "kernel/mul.py", "kernel/add.py", "kernel/linear.py FSULinearPC", "kernel/sqrt.py"]
STUB = ["SystemVerilog simulator (two-state, sim/rtl.py)", "clock, reset and input drivers"]

K, S = "kernel/old/", "stream/old/"
NUM = dict(iA=255, iB=255, loadA=1, loadB=1)
BIG = 2 ** 128 - 1
BLOCKS = {}


def add(file, ref, ins, twin=None, same=False, cost=1, rare=(), weight=1, **p):
    name = file.split("/", 2)[2][:-3]
    assert name not in BLOCKS
    top = file.split("/")[-1][:-3]
    BLOCKS[name] = dict(file=file, top=top, par=lambda r: {}, ins=lambda q: dict(ins), ref=lambda q: ref(p),
                        twin=(lambda q: twin(p)) if twin else None, same=same, cost=cost, rare=rare)


for n in range(3, 11):
    add(S + "SobolRNGs/SobolRNGDim1_%db.sv" % n, L.Sobol, dict(enable=1), L.SobolTwin, n=n)
add(S + "SobolRNG/SobolRNGDim1.sv", L.Sobol, dict(enable=1), L.SobolTwin, n=8)
add(K + "dADD/SobolRNGDim1.sv", L.Sobol, dict(enable=1), L.SobolTwin, n=3)
MACS = {"u": ["uMAC_uni_scaled", "uMAC_bi_scaled", "uMAC_uni_nonscaled"],
        "g": ["gainMAC_uni_scaled", "gainMAC_bi_scaled", "gainMAC_uni_nonscaled"]}
add(K + "uMUL_uni/uMUL_uni.sv", L.UMulU, dict(iA=1, iB=255, loadB=1), L.UMulTwin, True, rare=("loadB",), bi=False)
add(K + "uMUL_bi/uMUL_bi.sv", L.UMulB, dict(iA=1, iB=255, loadB=1), L.UMulTwin, True, rare=("loadB",), bi=True)
add(K + "MAC16/uMAC_uni_scaled/uMUL_uni.sv", L.UMulU, dict(iA=1, iB=255, loadB=1), L.UMulTwin, True, rare=("loadB",), bi=False)
add(K + "MAC16/uMAC_bi_scaled/uMUL_bi.sv", L.UMulB, dict(iA=1, iB=255, loadB=1), L.UMulTwin, True, rare=("loadB",), bi=True)
add(K + "gMUL_uni/gMUL_uni.sv", L.GMulU, NUM, rare=("loadA", "loadB"))
add(K + "gMUL_bi/gMUL_bi.sv", L.GMulB, NUM, rare=("loadA", "loadB"))
PORTS = dict(NUM, sobolSeqA=255, sobolSeqB=255)
add(K + "MAC16/gainMAC_uni_scaled/gMUL_uni.sv", L.GMulU, PORTS, rare=("loadA", "loadB"))
add(K + "MAC16/gainMAC_bi_scaled/gMUL_bi.sv", L.GMulB, PORTS, rare=("loadA", "loadB"))
add(K + "MAC16/dMAC_uni_scaled/dMUL_uni.sv", L.GMulU, PORTS, rare=("loadA", "loadB"))
add(K + "MAC16/dMAC_bi_scaled/dMUL_bi.sv", L.GMulB, PORTS, rare=("loadA", "loadB"))
add(K + "tMUL_uni/tMUL_uni.sv", L.TMulU, NUM, rare=("loadA", "loadB"))
add(K + "tMUL_bi/tMUL_bi.sv", L.TMulB, NUM, rare=("loadA", "loadB"))
add(K + "MAC16/tMAC_uni_nonscaled/tMUL_uni.sv", L.TMulU, dict(NUM, sobolSeq=255), rare=("loadA", "loadB"))
add(K + "uSADD/uSADD8.sv", L.USAdd, {"in": 255}, L.UAddTwin, True, n=8)
add(K + "uSADD/uSADD16.sv", L.USAdd, {"in": 65535}, L.UAddTwin, True, n=16)
add(K + "MAC16/uMAC_uni_scaled/uSADD16.sv", L.USAdd, {"in": 65535}, L.UAddTwin, True, n=16)
add(K + "MAC16/uMAC_uni_nonscaled/uNSADD16.sv", L.UNSAdd, {"in": 65535}, lambda p: L.UAddTwin(p, 1), n=16)
add(K + "parallelCnt/parallelCnt7.sv", L.Count, {"in": 127})
add(K + "parallelCnt/parallelCnt15.sv", L.Count, {"in": 32767})
add(K + "muxADD/muxADD.sv", L.MuxAdd, {"in": 255, "sel": 7})
add(K + "orADD/orADD.sv", L.OrAdd, {"in": 255})
add(K + "MAC16/gainMAC_uni_scaled/muxADD.sv", L.MuxAdd, {"in": 65535, "sel": 15})
add(K + "MAC16/gainMAC_uni_nonscaled/orADD.sv", L.OrAdd, {"in": 65535})
add(K + "add/add2.sv", L.Select, {"in": 3, "randNum": 1})
add(K + "add/add16.sv", L.Select, {"in": 65535, "randNum": 15})
add(K + "add/fulladder.sv", L.FullAdd, dict(a=1, b=1, ci=1))
add(K + "mul/mul.sv", L.And2, {"in": 3})
add(K + "add/fixed_point_add16bit.sv", L.Reg, dict(a=65535, b=65535), op="+")
add(K + "mul/fixed_point_mul16bit.sv", L.Reg, dict(a=65535, b=65535), op="*")
add(K + "bADD/bADD.sv", L.Reg2, dict(iA=255, iB=255), op="+")
add(K + "bMUL/bMUL.sv", L.Reg2, dict(iA=255, iB=255), op="*")
add(K + "MAC16/bMAC_SIMD/mac.sv", L.Mac, dict(iA=255, iB=255, iC=2 ** 20 - 1, acc_en=1))
add(K + "cordiv/cordiv.sv", L.Cordiv, dict(srSel=1, dividend=1, divisor=1))
add(K + "iscbdiv/cordiv.sv", L.Cordiv, dict(srSel=1, dividend=1, divisor=1))
for n in (4, 5):
    add(K + "gdiv/gdiv%db.sv" % n, L.Gaines, dict(randNum=2 ** n - 1, dividend=1, divisor=1), n=n)
    add(K + "gsqrt/gsqrt%db.sv" % n, L.Gaines, {"randNum": 2 ** n - 1, "in": 1}, n=n)
add(K + "sqrt/sqrtJK.sv", L.JKRoot, {"in": 1}, L.JKTwin, True)
add(K + "jkdivbisqrt/jkdivbisqrt.sv", L.JKRoot, {"in": 1}, L.JKTwin, True)
UM = dict(iA=65535, iB=BIG, loadB=1)
for n in MACS["u"]:
    add(K + "MAC16/%s/%s.sv" % (n, n), L.UMac, UM, L.UMacTwin if n.endswith("_scaled") else None, True, 0.3, ("loadB",), bi="_bi_" in n, scaled=n.endswith("_scaled"))
GM = dict(iA=BIG, iB=BIG, loadA=1, loadB=1)
for n in MACS["g"]:
    add(K + "MAC16/%s/%s.sv" % (n, n), L.GMac, GM, None, False, 0.3, ("loadA", "loadB"), bi="_bi_" in n, scaled=n.endswith("_scaled"))

WORLD = rtlworld.World(BLOCKS, ["saturated", "left-range", "full-period"])
PROBES = WORLD.probes
gen, run, shrink = WORLD.gen, WORLD.run, WORLD.shrink
