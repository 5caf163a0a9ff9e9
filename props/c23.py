"""Isolation: many live objects, cooperative interleaving and preempted threads, against runs alone."""
import copy
import gc
import json
import os
import struct
import sys
import threading
import time

import torch

from sim import benches as B
from sim import boot
from sim.actors import Actor, gen_actor
from sim.core import HarnessError, Hang, Violation
from sim.env import seed_all
from sim.world import disturb, gen_env, gen_schedule, shrink_ops

ID = "C23"
QUICK = 1200
CHUNK = 2
RULE = ("Seeded populations of 2-4 live objects of every kind (kernels, monitors, layers, cells), clocked in a seeded order while others are "
        "built, copied and destroyed and shared configuration dictionaries are rewritten; or the same objects in threads preempted at "
        "seeded source lines or byte codes. Each object's history is compared with its history when it runs alone in a pristine process.")
REAL = ["stream/*", "kernel/*", "metric/metric.py", "CPython threads (one runs at a time, preempted where the seed says)"]
STUB = ["random draws during construction (simulated entropy)", "bit producers", "clock and thread scheduler"]
PROBES = ["coop", "threads", "opcodes", "shared-dict", "switched-inside-call", "built-in-thread", "twin"]
DETSRC = ("sobol", "rc", "race", "tc", "race10", "tc10")


def gen(r, tier):
    threads = r.random() < 0.35
    n = r.choice([2, 2, 3, 4])
    T = r.choice([6, 12]) if threads else None
    acts = [gen_actor(r, T=T) for _ in range(n)]
    for k in range(1, n):
        # twins: the same construction, often the same dictionaries, other inputs
        if r.random() < 0.45:
            a = copy.deepcopy(acts[0])
            b = gen_actor(r, T=T, kinds=[a["kind"]])
            if "node" in a:
                if r.random() < 0.5:
                    a["node"]["key"] = r.getrandbits(32)
                if r.random() < 0.5:
                    a["node"]["w"] = {p: ["".join(r.choice("01") for _ in x) for x in v] for p, v in a["node"]["w"].items()}
                # a near-twin differs in one number only
                if r.random() < 0.4:
                    mutate(r, a["node"])
            else:
                for i, call in enumerate(a["calls"]):
                    call[0] = b["calls"][i % len(b["calls"])][0]
                if a["kind"] == "layer" and r.random() < 0.5:
                    a["c"]["wseed"] ^= 1
                if a["kind"] == "layer" and r.random() < 0.3 and a["c"]["family"] == "hub":
                    a["c"]["hw"]["widthi"] = a["c"]["hw"]["widthw"] = r.choice([3, 4, 5])
            acts[k] = a
    s = dict(mode="threads" if threads else "coop", acts=acts, shared=r.random() < 0.6, gseed=r.getrandbits(31))
    if threads:
        s["ops"] = [[r.choice([1, 1, 2, 3, 5, 9, 20, 60, 200]), r.randrange(n)] for _ in range(r.randint(5, 60))]
        s["opcodes"] = r.random() < 0.4
        s["inside"] = r.random() < 0.5
        s["env"] = []
    else:
        ops = []
        if r.random() < 0.35:
            ops = [["mutcfg", k, r.getrandbits(20)] for k in range(n)]
        for i in gen_schedule(r, [a["T"] for a in acts]):
            while r.random() < 0.06:
                ops.append([r.choice(["copy", "stepcopy", "stepcopy", "kill", "rebuild", "mutcfg"]), r.randrange(n), r.getrandbits(20)])
            ops.append(["step", i, 0])
        late = r.random() < 0.4
        s["late"] = [r.random() < 0.4 if late else False for _ in range(n)]
        s["ops"] = ops
        s["env"] = gen_env(r, len(ops), ("reseed", "draw", "gc", "peer", "peer", "mode", "grad"))
    return s


def mutate(r, node):
    c = node["c"]
    ks = [k for k in ("depth", "width", "dimr", "scale", "b") if k in c]
    if not ks:
        return
    k = r.choice(ks)
    b = B.ALL[node["b"]]
    for _ in range(20):
        c2, sh2 = b.gen(r, False)
        if sh2 == node["sh"] and k in c2:
            if k in ("depth", "dimr") and isinstance(c2[k], int) and node["b"] not in ("sqrt", "div"):
                c[k] = c2[k]
            return


# --------------------------------------------------------------- runs alone

def alone(specs, ctx, gseed):
    """Histories of each object on its own, each in a pristine child process."""
    out = []
    for k, s in enumerate(specs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                seed_all(gseed)
                data = json.dumps(history(s, ctx)).encode()
                with os.fdopen(w, "wb") as f:
                    f.write(struct.pack(">Q", len(data)) + data)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        try:
            with os.fdopen(r, "rb") as f:
                buf = f.read()
        except BaseException:
            os.kill(pid, 9)
            os.waitpid(pid, 0)
            raise
        os.waitpid(pid, 0)
        if len(buf) < 8 or len(buf) != 8 + struct.unpack(">Q", buf[:8])[0]:
            raise HarnessError("the run alone of object %d ended without a result" % k)
        out.append(json.loads(buf[8:].decode()))
    return out


def history(spec, ctx):
    h = []
    try:
        a = Actor(spec, ctx).build()
        while a.t < a.T:
            h.append(a.step_hash())
    except Hang:
        raise
    except Exception as e:
        h.append("raised %s" % type(e).__name__)
    return h


class Live:
    """An object of the population with its history so far."""

    def __init__(self, k, spec, ctx, want):
        self.k, self.spec, self.ctx, self.want = k, spec, ctx, want
        self.a = None
        self.dead = False
        self.copies = []
        self.n = 0

    def build(self):
        self.a = Actor(self.spec, self.ctx)
        try:
            self.a.build()
            self.a.check_given("by its constructor")
        except (Violation, Hang):
            raise
        except Exception as e:
            self.record("raised %s" % type(e).__name__)

    def record(self, h):
        i = self.n
        self.n += 1
        if h.startswith("raised"):
            self.dead = True
        if i >= len(self.want) or self.want[i] != h:
            raise Violation("interference", "%s (object %d) behaves differently than alone at its step %d: %s, alone %s" % (
                self.a.name, self.k, i, h, self.want[i] if i < len(self.want) else "finished"))

    def step(self):
        if self.dead or self.a is None or self.a.t >= self.a.T:
            return
        try:
            h = self.a.step_hash()
        except (Violation, Hang):
            raise
        except Exception as e:
            h = "raised %s" % type(e).__name__
        self.record(h)


def run(scn, ctx):
    B.SHARED = None
    want = alone(scn["acts"], ctx, scn["gseed"])
    B.SHARED = [] if scn["shared"] else None
    seed_all(scn["gseed"])
    ctx.probe("coop" if scn["mode"] == "coop" else "threads")
    if scn["shared"]:
        ctx.probe("shared-dict")
    live = [Live(k, s, ctx, want[k]) for k, s in enumerate(scn["acts"])]
    names = [l.spec["node"]["b"] if "node" in l.spec else l.spec["kind"] for l in live]
    if len(set(names)) < len(names):
        ctx.probe("twin")
    try:
        (coop if scn["mode"] == "coop" else threads)(scn, ctx, live)
    finally:
        B.SHARED = None
    for l in live:
        ctx.log(l.k, l.n, l.dead)
        if l.a is not None:
            l.a.check_given("by stepping", dicts=not any(o[0] == "mutcfg" for o in scn["ops"]))


def coop(scn, ctx, live):
    env = {}
    for g, op, arg in scn["env"]:
        env.setdefault(g, []).append((op, arg))
    for l in live:
        if not scn["late"][l.k]:
            ctx.info["node"] = l.k
            l.build()
    for g, (op, k, arg) in enumerate(scn["ops"]):
        ctx.info.update(step=g, node=k)
        if k >= len(live):
            continue
        for e, v in env.get(g, ()):
            disturb(e, v, ctx)
        l = live[k]
        if l.a is None:
            l.build()
        if op == "step":
            l.step()
        elif l.dead:
            continue
        elif op == "copy":
            ctx.fault("copied")
            try:
                c = copy.deepcopy(l.a.m)
            except RuntimeError:
                continue            # whether it can be copied is C25
            l.copies.append((c, l.a.t))
        elif op == "stepcopy" and l.copies:
            ctx.fault("copy-stepped")
            c, t0 = l.copies[arg % len(l.copies)]
            b = Actor(l.spec, ctx)
            b.build()
            b.set_module(c)
            b.t = arg % l.a.T
            try:
                b.step()
            except (Violation, Hang):
                raise
            except Exception:
                pass
        elif op == "rebuild":
            ctx.fault("sibling-built")
            b = Actor(l.spec, ctx).build()
            for _ in range(arg % 3):
                if b.t < b.T:
                    try:
                        b.step()
                    except (Violation, Hang):
                        raise
                    except Exception:
                        break
            del b
        elif op == "kill":
            ctx.fault("destroyed")
            l.copies.clear()
            if arg % 4 == 0:
                l.dead, l.a.m = True, None
                if "node" in l.spec:
                    l.a.n.m = None
            if arg % 2:
                gc.collect()
        elif op == "mutcfg":
            ctx.fault("dictionary-rewritten")
            for d in l.a.dicts:
                for key in sorted(d):
                    v = d[key]
                    if arg % 5 == 4:
                        del d[key]
                    elif isinstance(v, bool):
                        d[key] = not v
                    elif isinstance(v, str):
                        d[key] = {"unipolar": "bipolar", "bipolar": "unipolar"}.get(v.lower(), "sobol")
                    elif isinstance(v, torch.dtype):
                        d[key] = torch.double
                    elif v is None or isinstance(v, (int, float)):
                        d[key] = (v or 0) + 1
            if B.SHARED is not None:
                B.SHARED.clear()    # later constructions get fresh dictionaries


# ------------------------------------------------------------------- threads

class Baton:
    """Exactly one thread runs; a switch happens only where the scenario says."""

    def __init__(self, scn, ctx, n):
        self.ops = scn["ops"]
        self.opcodes = scn["opcodes"]
        self.ctx = ctx
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.alive = [True] * n
        self.cur = 0
        self.i = 0
        self.left = self.ops[0][0] if self.ops else 0
        self.err = None
        self.done = threading.Semaphore(0)
        self.inside = 0
        self.repo = boot.REPO + os.sep
        self.points = 0

    def point(self, k):
        """A place where thread k may lose the processor."""
        self.points += 1
        if not self.ops:
            return
        self.left -= 1
        if self.left > 0:
            return
        to = self.ops[self.i % len(self.ops)][1] % len(self.alive)
        self.i += 1
        self.left = self.ops[self.i % len(self.ops)][0]
        if to != k and self.alive[to]:
            self.inside += 1
            self.cur = to
            self.sem[to].release()
            self.sem[k].acquire()
            if self.err is not None:
                raise SystemExit

    def tracer(self, k):
        def local(frame, event, arg):
            if event == ("opcode" if self.opcodes else "line"):
                self.point(k)
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(self.repo):
                if self.opcodes:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return local
            return None
        return glob

    def finish(self, k):
        self.alive[k] = False
        rest = [j for j, a in enumerate(self.alive) if a]
        if rest:
            self.cur = rest[0]
            self.sem[rest[0]].release()
        else:
            self.done.release()


def threads(scn, ctx, live):
    def safe(l):
        """Construction draws no random number, so it may happen inside a thread."""
        s = l.spec
        if "node" in s:
            return s["node"]["c"].get("rng", "sobol").lower() in DETSRC
        if s["kind"] == "layer":
            return False
        return s["kind"] == "hub"
    inside = [scn["inside"] and safe(l) for l in live]
    for l in live:
        if not inside[l.k]:
            ctx.info["node"] = l.k
            l.build()
    bat = Baton(scn, ctx, len(live))
    import contextlib
    from sim import env as E

    @contextlib.contextmanager
    def nothing(self):
        yield self

    def body(l):
        k = l.k
        bat.sem[k].acquire()
        try:
            if bat.err is None:
                sys.settrace(bat.tracer(k))
                try:
                    if inside[k]:
                        l.build()
                    while not l.dead and l.a.t < l.a.T:
                        l.step()
                finally:
                    sys.settrace(None)
        except SystemExit:
            pass
        except BaseException as e:
            if bat.err is None:
                bat.err = e
                ctx.info["node"] = k
        finally:
            bat.finish(k)
    real = E.Entropy.installed
    if any(inside):
        ctx.probe("built-in-thread", sum(inside))
        E.Entropy.installed = nothing
    ts = [threading.Thread(target=body, args=(l,), daemon=True) for l in live]
    try:
        for t in ts:
            t.start()
        bat.sem[0].release()
        end = time.monotonic() + 60
        while not bat.done.acquire(timeout=0.5):
            if time.monotonic() > end:
                raise Violation("deadlock", "no thread finished its work; %s" % bat.alive)
    finally:
        E.Entropy.installed = real
    for t in ts:
        t.join(5)
    ctx.fault("preempted", bat.inside)
    ctx.probe("switched-inside-call", bat.inside)
    if scn["opcodes"]:
        ctx.probe("opcodes")
    ctx.log("points", bat.points, bat.inside)
    if bat.err is not None:
        raise bat.err


def shrink(scn, viol):
    if scn["env"]:
        yield dict(scn, env=[])
    n = len(scn["acts"])
    if n > 1:
        for i in range(n):
            s = copy.deepcopy(scn)
            del s["acts"][i]
            if "late" in s:
                del s["late"][i]
            m = {o: w for w, o in enumerate(k for k in range(n) if k != i)}
            if scn["mode"] == "coop":
                s["ops"] = [[a, m[b], c] for a, b, c in s["ops"] if b in m]
            else:
                s["ops"] = [[a, m.get(b, 0)] for a, b in s["ops"]]
            s["env"] = []
            yield s
    for s in shrink_ops(scn, viol if scn["mode"] == "coop" else {}):
        s["env"] = []
        yield s
