"""Streaming networks: kernels as processes joined by bounded links, with feedback, under seeded schedules, corruption, crashes and replay."""
import copy

import numpy as np
import torch

from props.c25 import guarded, load, save
from sim import benches as B
from sim import waves as W
from sim.core import Violation
from sim.env import DT, obs, same, seed_all, tens, track
from sim.world import disturb, gen_env, shrink_ops

ID = "C39"
QUICK = 2500
RULE = ("Seeded networks of 1-6 real kernels joined by bounded FIFO links that carry the delivered tensors themselves; stages fire in a seeded order under "
        "back-pressure, links flip bits, feedback links start with one token, stages checkpoint, crash, restart from the last surviving checkpoint (or from "
        "nothing) and replay their input log; every delivered token equals the synchronous composition of the reference models.")
REAL = ["stream/gen.py", "stream/shuffle.py", "kernel/*.py (FSU kernels)", "copy, pickle, torch.save/torch.load"]
STUB = ["links and scheduler", "external bit producers", "checkpoint store (in memory)", "random draws during construction"]
PROBES = ["feedback", "self-loop", "back-pressure", "starved", "crash", "crash-from-checkpoint", "crash-from-nothing", "replayed", "alias-delivered", "type-changed",
          "fan-out", "depth>=3", "corrupted", "shared-config"]
LIGHT = [b for b in B.STREAMS if b not in ("mgu", "conv", "convpc", "linear", "linearpc")]
HEAVY = ["linear", "linear", "linearpc", "conv", "convpc", "mgu"]
HOW = ["deepcopy", "pickle", "torch"]


def outputs(s):
    """The outputs of a stage that carry bits and how many."""
    b = B.ALL[s["b"]]
    return {o: B.prod(b.oshape(s["c"], s["sh"], o)) for o in b.outs(s["c"]) if o != "count"} if b.STREAM and s["b"] not in ("convpc", "linearpc") else {}


def ports(s):
    b = B.ALL[s["b"]]
    return {p: B.prod(b.pshape(s["c"], s["sh"], p)) for p in b.PORTS}


def gen(r, tier):
    big = tier == "thorough"
    n = r.choice([1, 2, 2, 3, 3, 4, 5, 6])
    T = r.choice([8, 16, 24, 40, 60] if not big else [24, 60, 150])
    ext = r.choice([1, 2, 4, 8])
    stages = []
    st = r.choice(["f32", "f32", "i8", "i32"]) if r.random() < 0.3 else None
    for k in range(n):
        name = r.choice(HEAVY) if r.random() < 0.12 else r.choice(LIGHT)
        b = B.ALL[name]
        c, sh = b.gen(r, False)
        if st and "st" in c and name in LIGHT:
            c["st"] = st
        if T > 24 and name in HEAVY:
            T = 24
        s = dict(b=name, c=c, sh=sh, key=r.getrandbits(32), wires={})
        stages.append(s)
    fb = r.choice([0, 0, 0.3, 0.6])
    for k, s in enumerate(stages):
        for p, m in sorted(ports(s).items()):
            cand = [(u, o, q) for u in range(k) for o, q in outputs(stages[u]).items()]
            if r.random() < fb:
                cand = cand[-2:] + [(u, o, q) for u in range(k, n) for o, q in outputs(stages[u]).items()]
            cand = cand[-6:]
            if not cand or r.random() < 0.12:
                cand = [(-1, "x", ext)]
            fit = [x for x in cand if x[2] == m]
            if fit and r.random() < 0.75:
                u, o, q = r.choice(fit)
                s["wires"][p] = [[u, o, i] for i in range(m)]
            else:
                some = [r.choice(cand) for _ in range(r.choice([1, 2]))] + ([(-1, "x", ext)] if r.random() < 0.3 else [])
                s["wires"][p] = [[u, o, r.randrange(q)] for u, o, q in (r.choice(some) for _ in range(m))]
    ops = []
    style = r.choice(["uniform", "bursts", "eager", "lazy"])
    w = [r.choice([1, 1, 3, 0.2]) for _ in stages]
    cur = 0
    N = int(n * T * r.choice([0.5, 1.2, 2]))
    pc = r.choice([0, 0.02, 0.06])
    for i in range(N):
        if style == "uniform":
            cur = r.choices(range(n), w)[0]
        elif style == "bursts":
            if r.random() < 0.2:
                cur = r.randrange(n)
        else:
            cur = i % n if style == "eager" else n - 1 - i % n
        ops.append(["fire", cur])
        if r.random() < pc:
            ops.append(["ck", r.randrange(n), r.choice(HOW), int(r.random() < 0.15)])
        if r.random() < pc / 2:
            ops.append(["crash", r.randrange(n)])
    bad = []
    for _ in range(r.choice([0, 0, 1, 3, 6])):
        k = r.randrange(n)
        pp = sorted(p for p, m in ports(stages[k]).items() if m)
        if pp:
            p = r.choice(pp)
            bad.append([k, p, r.randrange(T), r.randrange(ports(stages[k])[p])])
    return dict(stages=stages, T=T, x=W.waves(r, T, ext), cap=[r.choice([1, 1, 2, 4, 100]) for _ in stages], init=r.getrandbits(30), ops=ops, bad=bad, share=int(r.random() < 0.4), lazy=int(r.random() < 0.3),
                env=gen_env(r, len(ops), ("reseed", "draw", "gc", "peer", "mode", "grad")), gseed=r.getrandbits(31))


class Net:
    def __init__(self, scn, ctx):
        self.scn, self.ctx = scn, ctx
        self.S = scn["stages"]
        self.T = scn["T"]
        self.n = len(self.S)
        self.x = W.to_array(scn["x"])
        self.bad = {}
        for k, p, t, i in scn["bad"]:
            if k < self.n and p in self.S[k]["wires"] and i < len(self.S[k]["wires"][p]):
                self.bad.setdefault((k, p, t), []).append(i)
        self.ups = [sorted({w[0] for ws in s["wires"].values() for w in ws if w[0] >= 0}) for s in self.S]
        self.expect()

    def back(self, u, k):
        return u >= k

    def first(self, u, o, i):
        """The token a feedback link starts with."""
        return (self.scn["init"] >> ((u * 7 + i) % 30)) & 1

    def expect(self):
        """The synchronous run of the reference models."""
        ref = [B.ALL[s["b"]].model(s["c"], s["sh"], s["key"]) for s in self.S]
        self.want = []
        for t in range(self.T):
            now = []
            for k, s in enumerate(self.S):
                b = B.ALL[s["b"]]
                x = {}
                for p in b.PORTS:
                    a = []
                    for u, o, i in s["wires"][p]:
                        if u < 0:
                            a.append(int(self.x[t][i]))
                        elif not self.back(u, k):
                            a.append(int(now[u][o].reshape(-1)[i]))
                        elif t == 0:
                            a.append(self.first(u, o, i))
                        else:
                            a.append(int(self.want[t - 1][u][o].reshape(-1)[i]))
                    for i in self.bad.get((k, p, t), ()):
                        a[i] = 1 - a[i]
                    x[p] = np.array(a, np.int64).reshape(b.pshape(s["c"], s["sh"], p))
                now.append({o: np.asarray(v) for o, v in b.mstep(ref[k], x, s["c"], t).items()})
            self.want.append(now)

    # -- the live network ----------------------------------------------------
    def start(self):
        self.mod = [None] * self.n
        self.t = [0] * self.n           # next input of the stage
        self.top = [0] * self.n         # tokens it ever delivered
        self.log = [[] for _ in self.S]
        self.ck = [None] * self.n
        for k in range(self.n):
            if not self.scn["lazy"]:
                self.build(k)

    def build(self, k):
        s = self.S[k]
        self.ctx.info["node"] = k
        self.mod[k], _ = B.ALL[s["b"]].build(copy.deepcopy(s["c"]), s["sh"], s["key"])
        track(self.mod[k])

    def blocked(self, k):
        if self.t[k] >= self.T:
            return "done"
        for u in self.ups[k]:
            if self.top[u] + (1 if self.back(u, k) else 0) <= self.t[k]:
                return "starved"
        if self.t[k] == self.top[k]:
            for v in range(self.n):
                if k in self.ups[v] and self.top[k] + (1 if self.back(k, v) else 0) - max(self.top[v], self.t[v] + 1 if v == k else 0) >= self.scn["cap"][v]:
                    return "back-pressure"
        return None

    def gather(self, k, p):
        s = self.S[k]
        b = B.ALL[s["b"]]
        t = self.t[k]
        ws = s["wires"][p]
        dt = b.in_dt(s["c"])
        sh = list(b.pshape(s["c"], s["sh"], p))
        toks = {}
        for u, o, i in ws:
            if u >= 0 and (u, o) not in toks:
                toks[u, o] = (self.log[u][t - 1][o] if t else None) if self.back(u, k) else self.log[u][t][o]
        flips = self.bad.get((k, p, t), ())
        if len(toks) == 1 and len({w[0] for w in ws}) == 1 and not flips:
            tok = list(toks.values())[0]
            if tok is not None and tok.numel() == len(ws) and [w[2] for w in ws] == list(range(len(ws))):
                if tok.dtype != DT[dt]:
                    self.ctx.probe("type-changed")
                v = tok.type(DT[dt])
                v = v if list(v.shape) == sh else v.reshape(sh)
                if v.data_ptr() == tok.data_ptr():
                    self.ctx.probe("alias-delivered")
                return v
        a = []
        for u, o, i in ws:
            if u < 0:
                a.append(float(self.x[t][i]))
            elif toks[u, o] is None:
                a.append(float(self.first(u, o, i)))
            else:
                a.append(float(toks[u, o].reshape(-1)[i]))
        for i in flips:
            a[i] = 1 - a[i]
            self.ctx.fault("link-flip")
            self.ctx.probe("corrupted")
        return tens(np.array(a), dt, sh)

    def fire(self, k):
        s = self.S[k]
        b = B.ALL[s["b"]]
        t = self.t[k]
        self.ctx.info["node"] = k
        x = {p: self.gather(k, p) for p in b.PORTS}
        if self.mod[k] is None:         # built on demand
            self.build(k)
        out = b.call(self.mod[k], x, s["c"], t)
        self.ctx.cycles += 1
        for o in b.outs(s["c"]):
            binary = b.STREAM and o != "count"
            got = obs(out[o], "%s.%s" % (s["b"], o), b.oshape(s["c"], s["sh"], o), None, binary)
            again = t < self.top[k]
            same(got, self.want[t][k][o], "replay-differs" if again else "wrong-token",
                 "stage %d (%s.%s), token %d%s" % (k, s["b"], o, t, ", replayed after a crash" if again else ""), b.TOL)
            self.ctx.log_bytes("%d.%d.%s" % (k, t, o), got.tobytes())
        self.t[k] += 1
        if t == self.top[k]:
            self.log[k].append(out)
            self.top[k] += 1
        else:
            self.ctx.probe("replayed")
            self.ctx.fault("replay")

    def checkpoint(self, k, how, lost):
        if self.mod[k] is None:
            return
        blob = guarded("save %s" % how, save, how, self.mod[k])
        self.ctx.fault("checkpoint")
        if lost:
            self.ctx.fault("checkpoint-lost")
            return
        self.ck[k] = (how, blob, self.t[k])

    def crash(self, k):
        self.ctx.fault("crash")
        self.ctx.probe("crash")
        self.ctx.info["node"] = k
        self.mod[k] = None
        if self.ck[k] is None:
            self.ctx.probe("crash-from-nothing")
            self.build(k)
            self.t[k] = 0
        else:
            self.ctx.probe("crash-from-checkpoint")
            how, blob, t = self.ck[k]
            self.mod[k] = guarded("load %s" % how, load, how, blob)
            track(self.mod[k])
            self.t[k] = t


def run(scn, ctx):
    seed_all(scn["gseed"])
    if scn["share"]:
        B.SHARED = []           # equal configurations are one dictionary
        ctx.probe("shared-config")
    net = Net(scn, ctx)
    net.start()
    env = {}
    for g, op, arg in scn["env"]:
        env.setdefault(g, []).append((op, arg))
    if any(net.back(u, k) for k in range(net.n) for u in net.ups[k]):
        ctx.probe("feedback")
    if any(k in net.ups[k] for k in range(net.n)):
        ctx.probe("self-loop")
    if any(sum(u in net.ups[k] for k in range(net.n)) > 1 for u in range(net.n)):
        ctx.probe("fan-out")
    depth = [0] * net.n
    for k in range(net.n):
        depth[k] = 1 + max([depth[u] for u in net.ups[k] if u < k], default=0)
    if max(depth) >= 3:
        ctx.probe("depth>=3")
    for g, op in enumerate(scn["ops"]):
        if op[1] >= net.n:
            continue
        ctx.info.update(step=g, node=op[1])
        for e, arg in env.get(g, ()):
            disturb(e, arg, ctx)
        if op[0] == "ck":
            net.checkpoint(*op[1:])
        elif op[0] == "crash":
            net.crash(op[1])
        else:
            why = net.blocked(op[1])
            if why is None:
                net.fire(op[1])
            else:
                ctx.fault("stall")
                if why != "done":
                    ctx.probe(why)
    # faults have stopped: every stage finishes within the work that is left
    left = sum(net.T - t for t in net.t)
    while any(t < net.T for t in net.t):
        for k in range(net.n):
            if net.blocked(k) is None:
                net.fire(k)
                left -= 1
                break
        else:
            raise AssertionError("the network is stuck")
    assert left == 0


def shrink(scn, viol):
    if scn["env"]:
        yield dict(scn, env=[])
    if scn["bad"]:
        yield dict(scn, bad=[])
    n = len(scn["stages"])
    k = viol.get("node")
    if k is not None and k + 1 < n and not any(w[0] > k for s in scn["stages"][:k + 1] for ws in s["wires"].values() for w in ws):
        s = copy.deepcopy(scn)
        s["stages"] = s["stages"][:k + 1]
        yield s
    for k in range(n):
        s = copy.deepcopy(scn)
        ch = False
        for p, ws in s["stages"][k]["wires"].items():
            if any(w[0] >= 0 for w in ws):
                ch = True
                s["stages"][k]["wires"][p] = [[-1, "x", i % len(scn["x"])] for i in range(len(ws))]
        if ch:
            yield s
    for T in (scn["T"] // 2, scn["T"] - 1):
        if T >= 1:
            s = copy.deepcopy(scn)
            s["T"] = T
            s["x"] = [x[:T] for x in s["x"]]
            yield s
    yield from shrink_ops(scn, viol)
