"""Number sources under adversarial process-wide randomness."""
import contextlib

import numpy as np
import torch

from sim.core import Violation
from sim.env import DT, Entropy, draw_all, seed_all, sequence, rng_fingerprint
from sim.world import shrink_ops

ID = "C01"
QUICK = 1800
CHUNK = 16
RULE = ("Sessions of source constructions; before each one the process-wide generators are reseeded, drained or replaced by "
        "adversarial draws (rare values: zeros, all ones, range ends, repeats), or another source is built in between.")
REAL = ["stream/gen.py RNG, get_lfsr_seq, get_sysrand_seq", "pylfsr", "torch Sobol engine"]
STUB = ["numpy/torch draw functions when the fault kind is 'draws' (adversarial answers)"]
PROBES = ["kind:" + k for k in ("sobol", "rc", "race", "tc", "race10", "tc10", "lfsr", "sys")] + ["draw-zero-state", "width-1"]

KINDS = ["sobol", "rc", "race", "tc", "race10", "tc10", "lfsr", "lfsr", "lfsr", "sys", "sys"]


def gen(r, tier):
    ops = []
    for _ in range(r.randint(3, 10)):
        k = r.choice(KINDS)
        w = r.choice([2, 3, 4, 5, 6, 7, 8]) if k == "lfsr" else r.choice([1, 2, 3, 4, 5, 6, 8, 10])
        if k == "lfsr" and r.random() < (0.3 if tier == "thorough" else 0.1):
            w = r.choice([9, 10])
        pre = r.choice(["none", "reseed", "drain", "draws", "draws", "draws", "entropy"])
        name = "".join(ch.upper() if r.random() < 0.3 else ch for ch in k)
        ops.append([name, w, r.choice([1, 1, 2, 3, 4, 7, 20]), r.choice(["f32", "f32", "f64", "i64", "i32"]), pre, r.getrandbits(31),
                    r.choice(["low", "high", "mixed", "low", "constbit"])])
    return dict(gseed=r.getrandbits(31), ops=ops)


@contextlib.contextmanager
def adversary(style, seed, ctx):
    """Draw functions that answer from the edges of their legal range."""
    import random
    r = random.Random(seed)
    shape = lambda size: (size,) if isinstance(size, (int, np.integer)) else tuple(size)  # noqa: E731

    def pick(low, high):
        if style == "low":
            return low
        if style == "high":
            return high - 1
        if style == "constbit":
            return low if r.random() < 0.9 else high - 1
        return r.choice([low, high - 1, r.randrange(low, high)])

    def np_randint(low, high=None, size=None, dtype=int):
        ctx.fault("draw-randint")
        if high is None:
            low, high = 0, low
        if size is None:
            v = pick(int(low), int(high))
            if v == low == 0:
                ctx.probe("draw-zero-state")
            return int(v)
        n = int(np.prod(shape(size)))
        a = np.array([pick(int(low), int(high)) for _ in range(n)], dtype=dtype).reshape(shape(size))
        if low == 0 and not a.any():
            ctx.probe("draw-zero-state")
        if low == 1 and (a == 1).all():
            ctx.probe("draw-zero-state")
        return a

    def t_randperm(n, **kw):
        ctx.fault("draw-randperm")
        p = list(range(n))
        if style == "high":
            p = p[::-1]
        elif style == "mixed":
            r.shuffle(p)
        kw.pop("generator", None)
        kw.setdefault("dtype", torch.long)
        return torch.tensor(p, **kw)

    def t_randint(*a, **kw):
        ctx.fault("draw-randint")
        a = list(a)
        size = kw.pop("size", None)
        if size is None:
            size = a.pop()
        high, low = kw.pop("high", None), kw.pop("low", 0)
        if len(a) == 2:
            low, high = a
        elif len(a) == 1:
            high = a[0]
        kw.pop("generator", None)
        n = int(np.prod(size)) if len(size) else 1
        return torch.tensor([pick(int(low), int(high)) for _ in range(n)], **kw).reshape(tuple(size))

    def np_perm(x):
        ctx.fault("draw-randperm")
        p = t_randperm(x if isinstance(x, (int, np.integer)) else len(x)).numpy()
        return p if isinstance(x, (int, np.integer)) else np.asarray(x)[p]

    def py_randint(a, b):
        ctx.fault("draw-randint")
        return pick(a, b + 1)

    def py_randrange(a, b=None):
        ctx.fault("draw-randint")
        return pick(0, a) if b is None else pick(a, b)

    import random as R
    new = [(np.random, "randint", np_randint), (np.random, "permutation", np_perm), (torch, "randperm", t_randperm),
           (torch, "randint", t_randint), (R, "randint", py_randint), (R, "randrange", py_randrange)]
    saved = [(m, n, getattr(m, n)) for m, n, _ in new]
    for m, n, f in new:
        setattr(m, n, f)
    try:
        yield
    finally:
        for m, n, f in saved:
            setattr(m, n, f)


def law(kind, width, dimr, s, what):
    n = 2 ** width
    if s.shape != (n,):
        raise Violation("bad-shape", "%s has shape %s, expected (%d,)" % (what, s.shape, n))
    if not (s == np.floor(s)).all() or s.min() < 0 or s.max() >= n:
        raise Violation("out-of-range", "%s contains a value that is no %d-bit integer" % (what, width))
    s = s.astype(np.int64)
    if kind == "lfsr":
        if (s == 0).any():
            raise Violation("lfsr-law", "%s contains zero" % what)
        if len(set(s[:n - 1].tolist())) != n - 1 or s[n - 1] != s[0]:
            raise Violation("lfsr-law", "%s is not a maximal-length cycle (%d different values)" % (what, len(set(s.tolist()))))
        return
    if kind == "sys":
        if len(set(s.tolist())) != n:
            raise Violation("sys-law", "%s is no permutation" % what)
        return
    if (s != sequence(kind, width, dimr, 0)).any():
        raise Violation("wrong-sequence", "%s differs from its definition" % what)
    if len(set(s.tolist())) != n:
        raise Violation("not-a-permutation", "%s repeats a number" % what)


def run(scn, ctx):
    from UnarySim.stream.gen import RNG
    seed_all(scn["gseed"])
    kept = []
    for g, (name, w, dimr, rt, pre, arg, style) in enumerate(scn["ops"]):
        ctx.info["step"] = g
        kind = name.lower()
        if kind == "lfsr" and w < 2:
            continue
        cm = contextlib.nullcontext()
        if pre == "reseed":
            ctx.fault("env-reseed")
            seed_all(arg)
        elif pre == "drain":
            ctx.fault("env-draw")
            draw_all(arg % 100)
        elif pre == "draws":
            cm = adversary(style, arg, ctx)
        elif pre == "entropy":
            ctx.fault("env-entropy")
            cm = Entropy(arg).installed()
        hw = {"width": w, "dimr": dimr, "rng": name}
        before = rng_fingerprint()
        with cm:
            m = RNG(hw, {"rtype": DT[rt]})
            # reading is repeatable
            t, again = m(), m()
        if kind not in ("lfsr", "sys") and pre not in ("entropy",) and rng_fingerprint() != before:
            raise Violation("random-state", "building a %s source touched the process-wide random generators" % kind)
        what = "%s source of width %d" % (kind, w)
        if not isinstance(t, torch.Tensor) or t.dtype != DT[rt]:
            raise Violation("bad-dtype", "%s: type %s, expected %s" % (what, getattr(t, "dtype", type(t)), DT[rt]))
        a = t.detach().double().numpy().copy()
        law(kind, w, dimr, a, what)
        if not (again.detach().double().numpy() == a).all():
            raise Violation("unstable", "%s answered differently the second time" % what)
        ctx.cycles += len(a)
        ctx.log_bytes("%d" % g, a.tobytes())
        ctx.probe("kind:" + kind)
        if w == 1:
            ctx.probe("width-1")
        kept.append((what, m, a))
    for what, m, a in kept:
        if not (m().detach().double().numpy() == a).all():
            raise Violation("unstable", "%s changed after it was built" % what)


def shrink(scn, viol):
    yield from shrink_ops(scn, viol)
