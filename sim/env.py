"""Seams owned by the simulator: randomness, observation, dtype helpers."""
import contextlib
import hashlib
import random
import weakref

import numpy as np
import torch

from .core import Violation

DT = {"f32": torch.float, "f64": torch.double, "f16": torch.half, "bf16": torch.bfloat16,
      "i8": torch.int8, "i16": torch.int16, "i32": torch.int32, "i64": torch.long}


class Entropy:
    """Constant stand-ins for the draw functions used while a component is being
    constructed: every call with the same arguments gives the same answer, so the
    number and order of draws inside a constructor do not matter."""

    def __init__(self, key):
        self.key = int(key)
        self.calls = 0

    def _u(self, *a):
        h = hashlib.sha256(("%d|" % self.key + "|".join(map(str, a))).encode()).digest()
        return int.from_bytes(h[:8], "big")

    def perm(self, n):
        r = random.Random(self._u("perm", n))
        p = list(range(n))
        r.shuffle(p)
        return p

    def ints(self, low, high, count):
        return [low + self._u("int", low, high, i) % (high - low) for i in range(count)]

    @contextlib.contextmanager
    def installed(self):
        ent = self

        def shape(size):
            return (size,) if isinstance(size, (int, np.integer)) else tuple(size)

        def np_randint(low, high=None, size=None, dtype=int):
            ent.calls += 1
            if high is None:
                low, high = 0, low
            if size is None:
                return int(ent.ints(low, high, 1)[0])
            s = shape(size)
            n = int(np.prod(s)) if s else 1
            return np.array(ent.ints(int(low), int(high), n), dtype=dtype).reshape(s)

        def np_perm(x):
            ent.calls += 1
            if isinstance(x, (int, np.integer)):
                return np.array(ent.perm(int(x)))
            x = np.asarray(x)
            return x[ent.perm(len(x))]

        def t_randperm(n, **kw):
            ent.calls += 1
            kw.pop("generator", None)
            kw.setdefault("dtype", torch.long)
            return torch.tensor(ent.perm(int(n)), **kw)

        def t_randint(*a, **kw):
            ent.calls += 1
            a = list(a)
            size = kw.pop("size", None)
            if size is None:
                size = a.pop()
            high = kw.pop("high", None)
            low = kw.pop("low", 0)
            if len(a) == 2:
                low, high = a
            elif len(a) == 1:
                high = a[0]
            kw.pop("generator", None)
            n = int(np.prod(size)) if len(size) else 1
            return torch.tensor(ent.ints(int(low), int(high), n), **kw).reshape(tuple(size))

        saved = [(np.random, "randint", np.random.randint), (np.random, "permutation", np.random.permutation),
                 (torch, "randperm", torch.randperm), (torch, "randint", torch.randint)]
        new = [np_randint, np_perm, t_randperm, t_randint]
        seed_all(self.key)
        try:
            for (m, n, _), f in zip(saved, new):
                setattr(m, n, f)
            yield self
        finally:
            for m, n, f in saved:
                setattr(m, n, f)


LIVE = []           # weak references to the modules of the current run, in order of creation


def track(m):
    if isinstance(m, torch.nn.Module):
        LIVE.append(weakref.ref(m))
    return m


def toggle_modes(arg):
    """Somebody switches modules between training and evaluation."""
    for k, w in enumerate(LIVE):
        m = w()
        if m is not None:
            m.train(bool(arg >> (k % 24) & 1))


def fresh():
    """Before every run: what earlier runs of this process may have left behind."""
    del LIVE[:]
    torch.set_grad_enabled(True)


def seed_all(s):
    s = int(s) % (2 ** 32)
    torch.manual_seed(s)
    np.random.seed(s)
    random.seed(s)


def draw_all(n):
    """Somebody else in the process consumes random numbers."""
    torch.rand(n)
    np.random.rand(n)
    for _ in range(n):
        random.random()


def rng_fingerprint():
    s = np.random.get_state()
    return (hash(torch.get_rng_state().numpy().tobytes()), hash(s[1].tobytes()), s[2], s[3], s[4],
            hash(random.getstate()))


DETERMINISTIC = ("sobol", "rc", "race", "tc", "race10", "tc10")
_SEQ = {}


def sequence(kind, width, dimr, key):
    """The number sequence a component built under Entropy(key) uses, as ints.
    Deterministic kinds come from their definition; for lfsr and sys the draw is
    replayed through the public RNG class under the same entropy (its law is C01)."""
    k = (kind, width, dimr, key if kind in ("lfsr", "sys") else 0)
    if k in _SEQ:
        return _SEQ[k]
    if kind in ("sobol", "rc"):
        n = 2 ** width
        v = torch.quasirandom.SobolEngine(dimr).draw(n)[:, dimr - 1].double().numpy()
        s = np.floor(v * n).astype(np.int64)
    elif kind in ("race", "tc"):
        s = np.arange(2 ** width)
    elif kind in ("race10", "tc10"):
        s = np.arange(2 ** width)[::-1].copy()
    else:
        from UnarySim.stream.gen import RNG
        with Entropy(key).installed():
            s = RNG({"width": width, "dimr": dimr, "rng": kind}, {"rtype": torch.float})()
        s = s.detach().double().numpy().astype(np.int64)
    _SEQ[k] = s
    return s


def tens(a, dt, shape=None, layout=0):
    """numpy 0/1 array -> tensor of the given type; layout selects memory order."""
    t = torch.from_numpy(np.ascontiguousarray(a)).type(DT[dt])
    if shape is not None:
        t = t.reshape(tuple(shape))
    if layout == 1 and t.dim() >= 2:          # transposed storage
        t = t.transpose(0, -1).contiguous().transpose(0, -1)
    elif layout == 2:                          # strided view into a larger buffer
        big = torch.full(tuple(t.shape[:-1]) + (t.shape[-1] * 2,), 1).type(t.dtype)
        big[..., ::2] = t
        t = big[..., ::2]
    return t


def obs(t, what, shape=None, dtype=None, binary=False):
    """Read a tensor the code under test returned into float64, judging only what
    the caller asks for."""
    if not isinstance(t, torch.Tensor):
        raise Violation("bad-output", "%s is %s, not a tensor" % (what, type(t).__name__))
    if dtype is not None and t.dtype != dtype:
        raise Violation("bad-dtype", "%s has type %s, expected %s" % (what, t.dtype, dtype))
    if shape is not None and tuple(t.shape) != tuple(shape):
        raise Violation("bad-shape", "%s has shape %s, expected %s" % (what, tuple(t.shape), tuple(shape)))
    a = t.detach().to(torch.double).cpu().numpy().copy()
    if binary and not ((a == 0) | (a == 1)).all():
        bad = a[~((a == 0) | (a == 1))].reshape(-1)[0]
        raise Violation("not-a-bit", "%s contains %r" % (what, float(bad)))
    return a


def same(got, want, kind, what, tol=0.0):
    want = np.asarray(want, float)
    if got.shape != want.shape:
        raise Violation("bad-shape", "%s has shape %s, expected %s" % (what, got.shape, want.shape))
    if tol:
        bad = ~(np.abs(got - want) <= tol)
    else:
        bad = got != want
    if bad.any():
        i = tuple(int(x[0]) for x in np.nonzero(bad)) if got.ndim else ()
        raise Violation(kind, "%s at %s is %r, expected %r (%d of %d elements differ)" % (
            what, list(i), float(got[i]), float(want[i]), int(bad.sum()), bad.size))
