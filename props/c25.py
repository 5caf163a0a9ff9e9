"""Crash and recovery: snapshots on an unreliable disk, continuation compared with an uninterrupted run."""
import copy
import io
import json
import os
import pickle
import struct

import torch

from sim.actors import Actor, gen_actor
from sim.core import HarnessError, Hang, Violation
from sim.env import seed_all
from sim.world import disturb, gen_env, gen_schedule, shrink_ops
from props.c23 import alone

ID = "C25"
QUICK = 1200
CHUNK = 2
RULE = ("Seeded populations of 1-3 live objects clocked in a seeded order; snapshots by deep copy, pickle or torch.save go to a simulated "
        "disk that loses and tears writes; crashes at seeded cycles destroy the object, which restarts from what survived, possibly in a "
        "process that never saw the original; several restorations of one snapshot run side by side with the original.")
REAL = ["stream/*", "kernel/*", "metric/metric.py", "copy, pickle, torch.save/torch.load"]
STUB = ["disk (in memory, loses and truncates writes)", "random draws during construction", "bit producers", "clock"]
PROBES = ["deepcopy", "pickle", "torch", "restored", "restored-from-older", "restored-twice", "new-process", "rebuilt-from-nothing", "chained"]
HOW = ["deepcopy", "pickle", "pickle", "torch", "torch", "legacy"]


def gen(r, tier):
    n = r.choice([1, 1, 2, 3])
    acts = [gen_actor(r, T=r.choice([None, 12, 30])) for _ in range(n)]
    ops = []
    p = r.choice([0.03, 0.1, 0.3])
    if r.random() < 0.3:
        ops += [["snap", k, r.choice(HOW)] for k in range(n)]
    for i in gen_schedule(r, [a["T"] for a in acts]):
        ops.append(["step", i, 0])
        while r.random() < p:
            x = r.random()
            k = r.randrange(n)
            if x < 0.5:
                ops.append(["snap", k, r.choice(HOW)])
            elif x < 0.75:
                ops.append(["crash", k, r.choice([0, 0, 0, 1, 2])])
            elif x < 0.95:
                ops.append(["twin", k, r.randint(1, 12)])
            else:
                ops.append(["scrap", k, r.randrange(4)])
    if r.random() < 0.5:
        ops.append(["remote", r.randrange(n), 0])
    for i in gen_schedule(r, [a["T"] for a in acts]):
        ops.append(["step", i, 0])
    return dict(acts=acts, ops=ops, torn=[r.random() < 0.15 for _ in range(12)], lost=[r.random() < 0.1 for _ in range(12)],
                cut=r.getrandbits(16), env=gen_env(r, len(ops), ("reseed", "draw", "gc", "peer", "mode", "grad")), gseed=r.getrandbits(31))


# ---------------------------------------------------------- a second process

def server(specs, ctx):
    """A process that will never see the original objects."""
    ar, aw = os.pipe()
    br, bw = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(aw)
            os.close(br)
            with os.fdopen(ar, "rb") as f:
                data = f.read()
            if data:
                k, t, aux, how, blob = pickle.loads(data)
                h = []
                try:
                    a = Actor(specs[k], ctx).build()
                    a.set_module(load(how, blob))
                    a.t, a.state = t, aux
                    while a.t < a.T:
                        h.append(a.step_hash())
                except Violation as e:
                    h.append("violation " + str(e))
                except Exception as e:
                    h.append("raised %s: %s" % (type(e).__name__, str(e)[:200]))
                with os.fdopen(bw, "wb") as f:
                    f.write(json.dumps(h).encode())
        finally:
            os._exit(0)
    os.close(ar)
    os.close(bw)
    return pid, [aw, br]


def save(how, m):
    if how == "deepcopy":
        return copy.deepcopy(m)
    if how == "pickle":
        return pickle.dumps(m)
    b = io.BytesIO()
    torch.save(m, b, _use_new_zipfile_serialization=(how == "torch"))
    return b.getvalue()


def load(how, blob):
    if how == "deepcopy":
        return copy.deepcopy(blob)
    if how == "pickle":
        return pickle.loads(blob)
    return torch.load(io.BytesIO(blob), weights_only=False)


def guarded(what, f, *a):
    try:
        return f(*a)
    except (Violation, Hang):
        raise
    except Exception as e:
        raise Violation("cannot-" + what.split()[0], "%s: %s: %s" % (what, type(e).__name__, str(e)[:300]))


def run(scn, ctx):
    want = alone(scn["acts"], ctx, scn["gseed"])
    srv = server(scn["acts"], ctx) if any(o[0] == "remote" for o in scn["ops"]) else None
    try:
        session(scn, ctx, want, srv)
    finally:
        if srv:
            pid, fds = srv
            for fd in fds:
                os.close(fd)
            os.waitpid(pid, 0)


def session(scn, ctx, want, srv):
    seed_all(scn["gseed"])
    acts = []
    for k, s in enumerate(scn["acts"]):
        ctx.info["node"] = k
        a = Actor(s, ctx)
        try:
            a.build()
        except (Violation, Hang):
            raise
        except Exception:
            return          # construction itself is judged elsewhere
        acts.append(a)
    disk = [[] for _ in acts]
    nsnap = 0
    env = {}
    for g, op, arg in scn["env"]:
        env.setdefault(g, []).append((op, arg))

    def check(k, a, t, what):
        try:
            h = a.step_hash()
        except (Violation, Hang):
            raise
        except Exception as e:
            h = "raised %s" % type(e).__name__
        w = want[k][t] if t < len(want[k]) else "finished"
        if h != w:
            raise Violation("diverged", "%s (object %d): %s gives %s at cycle %d, the uninterrupted run %s" % (a.name, k, what, h, t, w))
        ctx.log(k, t, h)
        return not h.startswith("raised")

    def newest(k):
        """The newest snapshot that can still be read."""
        for n, (t, aux, how, blob, bad, used) in enumerate(reversed(disk[k])):
            if bad == "torn":
                try:
                    load(how, blob)
                except Exception:
                    ctx.fault("torn-snapshot-detected")
                    continue
                continue    # a truncated file that still loads is not a snapshot
            if n:
                ctx.probe("restored-from-older")
            e = disk[k][len(disk[k]) - 1 - n]
            e[5] += 1
            if e[5] > 1:
                ctx.probe("restored-twice")
            return e
        return None
    stop = set()
    mode = ["the original"] * len(acts)
    for g, (op, k, arg) in enumerate(scn["ops"]):
        if k >= len(acts) or k in stop:
            continue
        ctx.info.update(step=g, node=k)
        for e, v in env.get(g, ()):
            disturb(e, v, ctx)
        a = acts[k]
        if op == "step":
            if a.t < a.T and not check(k, a, a.t, mode[k]):
                stop.add(k)
        elif op == "snap":
            ctx.probe(arg if arg != "legacy" else "torch")
            blob = guarded("save %s at cycle %d by %s" % (a.name, a.t, arg), save, arg, a.m)
            i = nsnap % len(scn["torn"])
            nsnap += 1
            bad = None
            if scn["lost"][i]:
                ctx.fault("lost-snapshot")
                continue
            if scn["torn"][i] and arg != "deepcopy":
                ctx.fault("torn-snapshot")
                bad = "torn"
                blob = blob[:scn["cut"] % len(blob)]
            if mode[k] != "the original":
                ctx.probe("chained")
            disk[k].append([a.t, a.aux(), arg, blob, bad, 0])
        elif op == "crash":
            ctx.fault("crash")
            for _ in range(arg):
                if disk[k]:
                    disk[k].pop()
                    ctx.fault("lost-snapshot")
            a.m = None
            if "node" in a.spec:
                a.n.m = None
            e = newest(k)
            b = Actor(a.spec, ctx).build()
            if e is None:
                ctx.probe("rebuilt-from-nothing")
                mode[k] = "the rebuilt object"
            else:
                b.set_module(guarded("load %s from cycle %d by %s" % (a.name, e[0], e[2]), load, e[2], e[3]))
                b.t, b.state = e[0], copy.deepcopy(e[1])
                mode[k] = "the object restored from cycle %d by %s" % (e[0], e[2])
                ctx.probe("restored")
            acts[k] = b
        elif op == "twin":
            # restored beside the running original
            e = newest(k)
            if e is None:
                continue
            ctx.fault("restored-beside-original")
            b = Actor(a.spec, ctx).build()
            b.set_module(guarded("load %s from cycle %d by %s" % (a.name, e[0], e[2]), load, e[2], e[3]))
            b.t, b.state = e[0], copy.deepcopy(e[1])
            for _ in range(arg):
                if b.t >= b.T or not check(k, b, b.t, "a second restoration from cycle %d by %s" % (e[0], e[2])):
                    break
        elif op == "scrap":
            if disk[k]:
                disk[k].pop(arg % len(disk[k]))
        elif op == "remote" and srv:
            e = newest(k)
            if e is None or e[2] == "deepcopy":
                blob = guarded("save %s at cycle %d by torch.save" % (a.name, a.t), save, "torch", a.m)
                e = [a.t, a.aux(), "torch", blob, None, 0]
            aw, br = srv[1]
            srv[1].clear()
            with os.fdopen(aw, "wb") as f:
                f.write(pickle.dumps((k, e[0], e[1], e[2], e[3])))
            with os.fdopen(br, "rb") as f:
                d = f.read()
            if not d:
                raise HarnessError("the second process ended without a result")
            got = json.loads(d.decode())
            srv = None
            ctx.probe("new-process")
            ctx.fault("restored-in-new-process")
            w = want[k][e[0]:]
            for t, (x, y) in enumerate(zip(got + ["finished"] * len(w), w)):
                if x.split(":")[0] != y:
                    raise Violation("diverged", "%s (object %d): restored from cycle %d by %s in a new process gives %s at cycle %d, "
                                    "the uninterrupted run %s" % (a.name, k, e[0], e[2], x, e[0] + t, y))
            ctx.log("remote", k, got)


def shrink(scn, viol):
    if scn["env"]:
        yield dict(scn, env=[])
    n = len(scn["acts"])
    if any(scn["torn"]) or any(scn["lost"]):
        yield dict(scn, torn=[False], lost=[False])
    if n > 1:
        for i in range(n):
            s = copy.deepcopy(scn)
            del s["acts"][i]
            m = {o: w for w, o in enumerate(k for k in range(n) if k != i)}
            s["ops"] = [[a, m[b], c] for a, b, c in s["ops"] if b in m]
            s["env"] = []
            yield s
    for s in shrink_ops(scn, viol):
        s["env"] = []
        yield s
