"""Monitors: seeded interleavings of monitoring and reading."""
import numpy as np

from sim import benches as B
from sim.core import Violation
from sim.env import seed_all, same
from sim.waves import waves
from sim.world import Node, disturb, gen_env, gen_node, gen_schedule, probes, shrink_ops


def make(bench, extra, report=None):
    def gen(r, tier):
        ns = [gen_node(r, bench, T=r.choice([12, 40, 90, 200])) for _ in range(r.randint(1, 3))]
        if r.random() < 0.02:
            # one long run
            ns = [gen_node(r, bench, T=r.choice([1000, 2500, 4000]))]
            if r.random() < 0.7:
                for p in ns[0]["w"]:
                    ns[0]["w"][p] = waves(r, ns[0]["T"], len(ns[0]["w"][p]), r.choice(["dense", "ones", "ramp_down", "bern"]))
        for n in ns:
            n["c"]["reads"] = 0
        base = gen_schedule(r, [n["T"] for n in ns])
        p = r.choice([0.02, 0.1, 0.5, 0.9, 1.5])
        ops = []
        for i in base:
            ops.append([i, "m"])
            while r.random() < p / 2:
                ops.append([r.randrange(len(ns)), "p" if report and r.random() < 0.3 else "r"])
        ops += [[i, "r"] for i in range(len(ns))]
        return dict(nodes=ns, ops=ops, env=gen_env(r, len(ops), ("reseed", "draw", "gc", "peer", "mode", "grad")), gseed=r.getrandbits(31))

    def run(scn, ctx):
        seed_all(scn["gseed"])
        nodes = [Node(n, ctx) for n in scn["nodes"]]
        env = {}
        for g, op, arg in scn["env"]:
            env.setdefault(g, []).append((op, arg))
        reads = [0] * len(nodes)
        for g, (i, op) in enumerate(scn["ops"]):
            if i >= len(nodes):
                continue
            ctx.info.update(step=g, node=i)
            for e, arg in env.get(g, ()):
                disturb(e, arg, ctx)
            n = nodes[i]
            if op == "m":
                if n.t >= n.n["T"]:
                    continue
                n.b.monitor(n.m, n.inputs(), n.c)
                n.b.mmonitor(n.ref, n.ints(), n.c)
                n.t += 1
                ctx.cycles += 1
            elif op == "p" and n.t:
                report(n, ctx)
            elif n.t:
                ctx.fault("read-mid-run", int(n.t < n.n["T"]))
                reads[i] += 1
                if reads[i] > 1:
                    ctx.probe("read-again")
                out = n.b.read(n.m)
                got = n.observe(out)
                want = n.b.mread(n.ref)
                extra(n, got, Violation)
                for o in sorted(want):
                    same(got[o], want[o], "wrong-report", "%s.%s after %d cycles" % (n.n["b"], o, n.t), n.b.TOL)
                    ctx.log_bytes("%d.%s" % (g, o), np.round(got[o], 4).tobytes())
        for n in nodes:
            probes(n, ctx)
            if n.n["lay"] == 3:
                ctx.probe("buffer-reused")
            if n.t >= 1000:
                ctx.probe("long-run")
            if getattr(n.ref, "tied", False):
                ctx.probe("error-equals-threshold")

    def shrink(scn, viol):
        if scn["env"]:
            yield dict(scn, env=[])
        if any(n["f"] for n in scn["nodes"]):
            yield dict(scn, nodes=[dict(n, f=[]) for n in scn["nodes"]])
        for s in shrink_ops(scn, viol):
            s["env"] = []
            yield s
    return gen, run, shrink
