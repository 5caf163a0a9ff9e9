"""Worlds of hardware blocks elaborated from SystemVerilog: seeded clocks, glitching inputs, asynchronous resets,
power-up contents and process orders, compared after every event with a reference machine and, at the edges, with the
real software kernel.  `World(...)` gives the gen/run/shrink of a property."""
import copy
import os
import random
import re

from sim import boot, rtl
from sim import waves as W
from sim.core import Violation
from sim.world import shrink_ops

HW = os.path.join(boot.REPO, "hw")


def helpers(mods):
    """Modules that are instantiated and neither included nor a block of their own: looked up by name in hw/."""
    tried = set()
    while True:
        new = [n for n in re.findall(r"\('inst', '(\w+)'", repr(mods)) if n not in mods and n not in tried]
        if not new:
            return
        tried.update(new)
        for n in sorted(set(new)):
            for root, _, names in sorted(os.walk(HW)):
                for f in sorted(names):
                    if f in (n + ".sv", n + ".v"):
                        for k, v in rtl.load([os.path.join(root, f)]).items():
                            mods.setdefault(k, v)


def used(mods, name):
    return ("'inst', '%s'" % name) in repr(mods)


class World:
    """blocks: name -> dict(file, top, par(r), ins(p), ref(p), twin(p) or None, same, lib).

    ins(p): port -> largest value; twin(p): object with step(inputs) -> expected outputs and `start` (the outputs
    before the first edge); same: the software kernel answers in the same cycle; lib: other blocks whose modules
    may be instantiated."""

    def __init__(self, blocks, probes=()):
        self.blocks = blocks
        self.cache = {}
        self.probes = ["block:" + k for k in sorted(blocks)] + ["twin:" + k for k in sorted(blocks) if blocks[k].get("twin")] + list(probes) + [
            "reset-while-running", "reset-across-edge", "glitch", "power-up-differs"]

    def modules(self, name):
        """All modules the block needs: its file with includes, the blocks of `lib`."""
        if name not in self.cache:
            b = self.blocks[name]
            try:
                m = rtl.load([os.path.join(HW, b["file"])])
                for n in b.get("lib", ()):
                    if self.blocks[n]["top"] not in m and n != name and used(m, self.blocks[n]["top"]):
                        for k, v in rtl.load([os.path.join(HW, self.blocks[n]["file"])]).items():
                            m.setdefault(k, v)
                helpers(m)
            except rtl.SVError as e:
                m = e
            self.cache[name] = m
        if isinstance(self.cache[name], Exception):
            raise self.cache[name]
        return self.cache[name]

    def gen(self, r, tier):
        nodes = []
        ops = []
        per = []
        for k in range(r.choice([1, 1, 2])):
            name = r.choice(sorted(self.blocks))
            b = self.blocks[name]
            p = b["par"](r)
            twin = bool(b.get("twin")) and r.random() < 0.7
            nodes.append(dict(m=name, p=p, power=r.getrandbits(32), order=r.getrandbits(32), twin=twin))
            ins = b["ins"](p)
            T = r.choice([10, 30, 60, 60, 120] if tier != "thorough" else [30, 120, 400])
            T = max(6, int(T * b.get("cost", 1)))
            rare = b.get("rare", ())
            bits = {q: W.waves(r, T, 1)[0] for q in ins if ins[q] == 1 and not q.startswith("randNum") and q not in rare}
            for q in rare:          # a strobe: usually at once, then seldom
                bits[q] = [int(r.random() < (0.8 if t == 0 else 0.2 if t < 3 else 0.03)) for t in range(T)]
            step = {q: r.choice(["count", "any", "hold"]) for q in ins}
            cnt = 0
            my = [["rst", k, 0]] if r.random() < 0.7 else [["up", k], ["dn", k], ["rst", k, 0]]
            if r.random() < 0.5:
                my += [["up", k], ["dn", k]]
            my.append(["rst", k, 1])
            for t in range(T):
                v = {}
                for q, m in sorted(ins.items()):
                    if q in bits:
                        v[q] = int(bits[q][t])
                    elif m == 0 or step[q] == "hold" and t:
                        v[q] = 0 if m == 0 else last[q]
                    elif step[q] == "count":
                        v[q] = cnt % (m + 1)
                    else:
                        v[q] = r.randint(0, m)
                last = v
                cnt += 1
                while r.random() < 0.15:
                    my.append(["in", k, {q: r.randint(0, m) for q, m in sorted(ins.items()) if r.random() < 0.7}])
                if r.random() < 0.4:        # the last thing to move before the edge is one input alone
                    q = r.choice(sorted(ins))
                    my.append(["in", k, dict(v, **{q: r.randint(0, ins[q])})])
                my.append(["in", k, v])
                x = r.random()
                if x < 0.012:
                    my += [["rst", k, 0], ["rst", k, 1]]
                elif x < 0.02:
                    my += [["rst", k, 0], ["up", k], ["dn", k], ["rst", k, 1]]
                my.append(["up", k])
                x = r.random()
                if x < 0.008:
                    my += [["rst", k, 0], ["rst", k, 1]]
                elif x < 0.016:
                    my += [["rst", k, 0], ["dn", k], ["rst", k, 1], ["up", k]]
                if r.random() < 0.2:
                    my.append(["in", k, {q: r.randint(0, m) for q, m in sorted(ins.items()) if r.random() < 0.7}])
                my.append(["dn", k])
                if r.random() < 0.01:
                    my += [["rst", k, 0]] + ([["up", k], ["dn", k]] if r.random() < 0.5 else []) + [["rst", k, 1]]
            per.append(my)
        while any(per):
            k = r.choice([i for i, x in enumerate(per) if x])
            for _ in range(r.choice([1, 1, 3, 9])):
                if per[k]:
                    ops.append(per[k].pop(0))
        return dict(nodes=nodes, ops=ops)

    def run(self, scn, ctx):
        nodes = []
        for k, n in enumerate(scn["nodes"]):
            try:
                nodes.append(Node(self, n, k, ctx))
            except rtl.Unsupported as e:        # legal perhaps, but outside the subset this simulator knows
                ctx.probe("unsupported:%s" % n["m"])
                nodes.append(Idle())
        for n in scn["nodes"]:
            ctx.probe("block:" + n["m"])
        for g, op in enumerate(scn["ops"]):
            if op[1] >= len(nodes):
                continue
            ctx.info.update(step=g, node=op[1])
            nodes[op[1]].step(op)
        ctx.fault("power-up", len(nodes))

    def shrink(self, scn, viol):
        bad = viol.get("node")
        if len(scn["nodes"]) > 1 and bad is not None:
            s = copy.deepcopy(scn)
            s["nodes"] = [scn["nodes"][bad]]
            s["ops"] = [[o[0], 0] + o[2:] for o in scn["ops"] if o[1] == bad]
            yield copy.deepcopy(s)
        for k in range(len(scn["nodes"])):
            if scn["nodes"][k]["twin"]:
                s = copy.deepcopy(scn)
                s["nodes"][k]["twin"] = False
                yield s
        yield from shrink_ops(scn, viol)


class Idle:
    def step(self, op):
        pass


class Node:
    def __init__(self, world, n, k, ctx):
        self.n, self.k, self.ctx = n, k, ctx
        b = self.b = world.blocks[n["m"]]
        name, p = n["m"], n["p"]
        pr = random.Random(n["power"])
        orr = random.Random(n["order"])
        try:
            self.d = rtl.Design(world.modules(name), b["top"], p)
        except rtl.Unsupported:
            raise
        except rtl.SVError as e:
            raise Violation("not-legal", "%s cannot be elaborated: %s" % (name, e))
        self.d.order = lambda l: orr.sample(l, len(l))
        self.ins = sorted(q for q, (d, v) in self.d.ports.items() if d == "input" and q not in ("clk", "rst_n"))
        want = sorted(b["ins"](p))
        if self.ins != want:
            raise Violation("interface", "%s has inputs %s, not %s" % (name, self.ins, want))
        self.ref = b["ref"](p)
        self.alive = False          # a reset happened since power-up
        self.rst = 1
        self.clk = 0
        self.i = {q: 0 for q in self.ins}
        self.twin = None
        self.edges = 0
        self.d.power_up(lambda w: pr.getrandbits(w))
        if any(self.d.S):
            ctx.probe("power-up-differs")
        self.drive(clk=0, rst_n=1, **self.i)

    def drive(self, **kw):
        try:
            self.d.set(**{q: v for q, v in kw.items() if q in self.d.ports})
        except rtl.SVError as e:
            raise Violation("unstable", "%s: %s" % (self.n["m"], e))

    def step(self, op):
        kind = op[0]
        if kind == "in":
            self.i.update(op[2])
            self.drive(**op[2])
            self.ctx.fault("input-change")
            if self.clk:
                self.ctx.probe("glitch")
        elif kind == "up":
            if self.clk:
                return
            self.clk = 1
            if self.rst and self.alive:
                self.edges += 1
                if self.twin is not None:
                    before = {o: self.d.out(o) for o in self.outs()}
                    w = self.twin.step(self.i)
                    if not self.ref.bad and self.b.get("same"):
                        self.versus(before, w)
                self.ref.tick(self.i)
                self.laws()
            self.drive(clk=1)
            self.ctx.cycles += 1
            if not self.rst:
                self.ctx.probe("reset-across-edge")
        elif kind == "dn":
            if not self.clk:
                return
            self.clk = 0
            self.drive(clk=0)
        else:
            if op[2] == self.rst:
                return
            self.rst = op[2]
            if not self.rst:
                if self.alive and self.edges:
                    self.ctx.probe("reset-while-running")
                self.ctx.fault("reset")
                self.alive = True
                self.ref.reset()
                self.edges = 0
                self.twin = self.b["twin"](self.n["p"]) if self.n["twin"] else None
            self.drive(rst_n=self.rst)
        self.check()

    def outs(self):
        return [q for q, (d, v) in sorted(self.d.ports.items()) if d == "output"]

    def laws(self):
        if getattr(self.ref, "broken", None):
            raise Violation("law", "%s %s: %s" % (self.n["m"], self.n["p"], self.ref.broken))

    def versus(self, got, want):
        for o, v in sorted(want.items()):
            if got[o] != v:
                raise Violation("software-differs", "%s %s: %s is %d, the software kernel says %d after %d cycles" % (
                    self.n["m"], self.n["p"], o, got[o], v, self.edges))
        self.ctx.probe("twin:" + self.n["m"])

    def check(self):
        if not self.alive:
            return
        if self.ref.bad:
            self.ctx.probe("left-range")
            return
        got = {o: self.d.out(o) for o in self.outs()}
        if hasattr(self.ref, "watch"):
            self.ref.watch(got, self.i)
            self.laws()
        want = self.ref.outs(self.i)
        for o, v in sorted(want.items()):
            if o not in got:
                raise Violation("interface", "%s has no output %s" % (self.n["m"], o))
            if got[o] != v:
                raise Violation("wrong-output", "%s %s: %s is %d, expected %d, %d cycles after the reset with inputs %s" % (
                    self.n["m"], self.n["p"], o, got[o], v, self.edges, self.i))
        self.ctx.log(self.k, sorted(got.items()))
        if self.twin is not None and not self.b.get("same"):
            self.versus(got, self.twin.start if self.twin.last is None else self.twin.last)
        for x in self.ref.probes:
            self.ctx.probe(x)
