"""Streams and link faults, as explicit data."""
import numpy as np

KINDS = ["bern", "bern", "coded", "coded", "bursts", "markov", "period", "sparse", "dense", "ones", "zeros",
         "ramp_up", "ramp_down", "switch"]


def vdc(i, bits):
    return int(format(i % (1 << bits), "0%db" % bits)[::-1], 2) if bits else 0


def wave(r, T, kind=None):
    k = kind or r.choice(KINDS)
    if k == "bern":
        p = r.choice([0.1, 0.25, 0.5, 0.5, 0.75, 0.9, r.random()])
        b = [int(r.random() < p) for _ in range(T)]
    elif k == "coded":
        w = r.choice([3, 4, 5, 6])
        v = r.randint(0, 2 ** w)
        ph = r.randint(0, 2 ** w - 1)
        b = [int(v > vdc(t + ph, w)) for t in range(T)]
    elif k == "bursts":
        b, cur = [], r.randint(0, 1)
        m = r.choice([3, 8, 20])
        while len(b) < T:
            b += [cur] * r.randint(1, m)
            cur = 1 - cur
    elif k == "markov":
        s = r.choice([0.05, 0.2, 0.8, 0.95])
        cur, b = r.randint(0, 1), []
        for _ in range(T):
            if r.random() < s:
                cur = 1 - cur
            b.append(cur)
    elif k == "period":
        n = r.randint(1, 6)
        pat = [r.randint(0, 1) for _ in range(n)]
        b = [pat[t % n] for t in range(T)]
    elif k in ("sparse", "dense"):
        b = [0] * T
        for _ in range(r.randint(0, 3)):
            b[r.randrange(T)] = 1
        if k == "dense":
            b = [1 - x for x in b]
    elif k == "ones":
        b = [1] * T
    elif k == "zeros":
        b = [0] * T
    elif k in ("ramp_up", "ramp_down"):
        c = r.randint(0, T)
        b = [int((t < c) == (k == "ramp_up")) for t in range(T)]
    else:                       # switch: different rates in different phases
        b = []
        while len(b) < T:
            n = r.randint(5, 40)
            p = r.random()
            b += [int(r.random() < p) for _ in range(n)]
    return "".join(map(str, b[:T]))


def waves(r, T, lanes, kind=None):
    return [wave(r, T, kind) for _ in range(lanes)]


def to_array(ws):
    """list of lane strings -> int array [T, lanes]"""
    return np.array([[int(c) for c in w] for w in ws], dtype=np.int64).T.copy()


FAULTS = ["flip", "stuck0", "stuck1", "hold", "burst", "slip", "skip", "swap"]


def gen_faults(r, T, ports, n):
    """ports: {port: lanes}; returns [[t, port, lane, kind, length], ...]"""
    out = []
    names = sorted(p for p in ports if ports[p] > 0)
    if not names or T < 1:
        return out
    for _ in range(n):
        p = r.choice(names)
        k = r.choice(FAULTS)
        out.append([r.randrange(T), p, r.randrange(ports[p]), k, r.choice([1, 2, 3, 8, 20])])
    return sorted(out, key=lambda f: (f[0], f[1], f[2]))


def apply_faults(arrs, faults, ctx=None):
    """arrs: {port: [T, lanes]}; returns faulted copies. A fault counts as injected
    when it changed a bit."""
    arrs = {p: a.copy() for p, a in arrs.items()}
    for t, p, lane, kind, n in faults:
        a = arrs[p]
        T, L = a.shape
        if t >= T or lane >= L:
            continue
        before = a[:, lane].copy()
        x = a[:, lane]
        e = min(T, t + n)
        if kind == "flip":
            x[t] = 1 - x[t]
        elif kind == "burst":
            x[t:e] = 1 - x[t:e]
        elif kind == "stuck0":
            x[t:e] = 0
        elif kind == "stuck1":
            x[t:e] = 1
        elif kind == "hold":
            x[t:e] = x[t - 1] if t else 0
        elif kind == "slip":          # delayed: one bit delivered twice
            x[t + 1:] = before[t:-1]
        elif kind == "skip":          # lost: the stream arrives one bit early
            x[t:-1] = before[t + 1:]
            x[-1] = 0
        elif kind == "swap":          # delivered to the wrong lane
            o = (lane + 1) % L
            a[t:e, lane], a[t:e, o] = a[t:e, o].copy(), a[t:e, lane].copy()
        if ctx is not None:
            ctx.fault("link-" + kind, int((before != x).any()))
    return arrs
