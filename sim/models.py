"""Reference models: small integer state machines written from the documented
behaviour of each component, vectorised over independent lanes with numpy.
None of them imports the code under test."""
import numpy as np

I = np.int64


def alt(entry, lanes):
    """Initial contents 0,1,0,1,... of a register, per lane."""
    shape = (lanes,) if isinstance(lanes, (int, np.integer)) else tuple(lanes)
    a = (np.arange(entry, dtype=I) % 2).reshape((entry,) + (1,) * len(shape))
    return np.broadcast_to(a, (entry,) + shape).copy()


class ShiftReg:
    def __init__(self, entry, lanes):
        self.sr = alt(entry, lanes)

    def step(self, b, mask=None, index=0):
        out = self.sr[index].copy()
        cnt = self.sr.sum(0)
        nxt = np.concatenate([self.sr[1:], b[None]], 0)
        if mask is None:
            self.sr = nxt
        else:
            self.sr = np.where(mask[None] == 1, nxt, self.sr)
        return out, cnt


class JKFF:
    def __init__(self, lanes):
        self.q = np.zeros(lanes, I)

    def step(self, j, k):
        q = self.q
        self.q = np.where(j == 1, np.where(k == 1, 1 - q, 1), np.where(k == 1, 0, q))
        return self.q.copy()


class SkewedSync:
    def __init__(self, depth, lanes):
        self.top = 2 ** depth - 1
        self.cnt = np.zeros(lanes, I)

    def step(self, a, b):
        lone1 = (a == 1) & (b == 0)
        lone2 = (a == 0) & (b == 1)
        store = lone1 & (self.cnt < self.top)
        release = lone2 & (self.cnt > 0)
        out = np.where(store, 0, np.where(release, 1, a))
        self.cnt = self.cnt + store.astype(I) - release.astype(I)
        return out, b.copy()


class Bi2Uni:
    def __init__(self, depth, lanes):
        self.hi = 2 ** (depth - 2)
        self.acc = np.zeros(lanes, I)
        self.sat = 0

    def step(self, b):
        s = self.acc + 2 * b - 1
        c = np.clip(s, -self.hi, self.hi)
        self.sat += int((s != c).sum())
        out = (c >= 1).astype(I)
        self.acc = c - out
        return out


class Uni2Bi:
    def __init__(self, depth, lanes):
        self.hi = 2 ** (depth - 2)
        self.acc = np.zeros(lanes, I)

    def step(self, b):
        c = np.clip(self.acc + b + 1, -self.hi, self.hi)
        out = (c >= 2).astype(I)
        self.acc = c - 2 * out
        return out


class Add:
    """Input: ones counts over the entries. All quantities dyadic, exact in float64."""

    def __init__(self, mode, scale, entry, depth, lanes):
        self.scale = float(scale)
        self.off = (entry - self.scale) / 2 if mode == "bipolar" else 0.0
        self.hi = 2.0 ** (depth - 2)
        self.acc = np.zeros(lanes)
        self.sat = 0

    def step(self, total):
        s = self.acc + total - self.off
        c = np.clip(s, -self.hi, self.hi)
        self.sat += int((s != c).sum())
        out = (c >= self.scale)
        c = c - out * self.scale
        self.acc = np.clip(c, -self.hi, self.hi)
        return out.astype(I)


class MulStatic:
    def __init__(self, mode, binary, seq):
        self.mode, self.b, self.seq = mode, np.asarray(binary, I), np.asarray(seq, I)
        self.i1 = None

    def step(self, x):
        if self.i1 is None:
            self.i1 = np.zeros(x.shape, I)
            self.i0 = np.zeros(x.shape, I)
        n = len(self.seq)
        out = x * (self.b > self.seq[self.i1 % n])
        self.i1 = self.i1 + x
        if self.mode == "bipolar":
            out = out + (1 - x) * (1 - (self.b > self.seq[self.i0 % n]).astype(I))
            self.i0 = self.i0 + 1 - x
        return out.astype(I)


class MulStream:
    def __init__(self, mode, width, seq, lanes):
        self.mode, self.seq = mode, np.asarray(seq, I)
        self.sr = ShiftReg(2 ** width, lanes)
        self.i1 = np.zeros(lanes, I)
        self.i0 = np.zeros(lanes, I)

    def step(self, x, y):
        _, src = self.sr.step(y)
        n = len(self.seq)
        out = x * (src > self.seq[self.i1 % n])
        self.i1 = self.i1 + x
        if self.mode == "bipolar":
            out = out + (1 - x) * (1 - (src > self.seq[self.i0 % n]).astype(I))
            self.i0 = self.i0 + 1 - x
        return out.astype(I)


class SignAbs:
    def __init__(self, depth, lanes):
        self.top = 2 ** depth - 1
        self.half = 2 ** (depth - 1)
        self.acc = np.full(lanes, self.half, I)

    def step(self, b):
        self.acc = np.clip(self.acc + 2 * b - 1, 0, self.top)
        sign = (self.acc < self.half).astype(I)
        return sign, sign ^ b


class ReLU:
    def __init__(self, depth, lanes):
        self.top = 2 ** depth - 1
        self.half = 2 ** (depth - 1)
        self.acc = np.full(lanes, self.half, I)

    def step(self, b):
        low = (self.acc < self.half).astype(I)
        out = b | low
        self.acc = np.clip(self.acc + 2 * out - 1, 0, self.top)
        return out


class Cordiv:
    def __init__(self, entry, seq, lanes):
        self.sr = alt(entry, lanes)
        self.seq = np.asarray(seq, I)
        self.t = 0

    def step(self, dividend, divisor):
        hist = self.sr[self.seq[self.t % len(self.seq)]]
        self.t += 1
        q = np.where(divisor == 1, dividend, hist)
        nxt = np.concatenate([self.sr[1:], q[None]], 0)
        self.sr = np.where(divisor[None] == 1, nxt, self.sr)
        return q.astype(I)


class Div:
    def __init__(self, mode, depth_sa, depth_ss, entry, seq, lanes):
        self.mode = mode
        self.sync = SkewedSync(depth_ss, lanes)
        self.core = Cordiv(entry, seq, lanes)
        if mode == "bipolar":
            self.sa = [SignAbs(depth_sa, lanes), SignAbs(depth_sa, lanes)]
            self.bu = [Bi2Uni(3, lanes), Bi2Uni(3, lanes)]
            self.ub = Uni2Bi(4, lanes)

    def step(self, a, b):
        if self.mode == "unipolar":
            return self.core.step(*self.sync.step(a, b))
        sa, aa = self.sa[0].step(a)
        sb, ab = self.sa[1].step(b)
        q = self.core.step(*self.sync.step(self.bu[0].step(aa), self.bu[1].step(ab)))
        return sa ^ sb ^ self.ub.step(q)


class Sqrt:
    def __init__(self, mode, jk, emit, entry_sr, seq4, lanes):
        self.mode, self.jk, self.emit = mode, jk, emit
        self.bu = Bi2Uni(3, lanes) if mode == "bipolar" else None
        if emit:
            self.add = Add("unipolar", 1, 2, 10, lanes)
            self.sr = ShiftReg(entry_sr, lanes)
            self.e = np.zeros(lanes, I)
        else:
            self.tr = np.zeros(lanes, I)
            if jk:
                self.ff = JKFF(lanes)
            else:
                self.core = Cordiv(4, seq4, lanes)
                self.dff = 0

    def step(self, b):
        if self.emit:
            out = self.add.step(b + self.e)
            inv, _ = self.sr.step(1 - out)
            self.e = inv & (self.bu.step(out) if self.bu else out)
            return out
        out = np.where(self.tr == 1, 1, b)
        o = self.bu.step(out) if self.bu else out
        if self.jk:
            self.tr = self.ff.step(o, np.ones_like(o))
        else:
            dividend = (1 - self.dff) * o
            self.tr = self.core.step(dividend, self.dff + dividend)
            self.dff = 1 - self.dff
        return out.astype(I)


class LinearPC:
    """weights [o,i], bias [o] or None as integers; input [b,i] -> counts [b,o]."""

    def __init__(self, mode, temporal, weight, bias, seq):
        self.mode, self.temporal = mode, temporal
        self.w, self.b = np.asarray(weight, I), None if bias is None else np.asarray(bias, I)
        self.seq = np.asarray(seq, I)
        self.i1 = None
        self.t = 0

    def step(self, x):
        n = len(self.seq)
        if self.i1 is None:
            self.i1 = np.zeros(x.shape, I)
            self.i0 = np.zeros(x.shape, I)
        if self.temporal:
            wb = (self.w > self.seq[self.t % n]).astype(I)
            out = x @ wb.T
            if self.mode == "bipolar":
                out = out + (1 - x) @ (1 - wb).T
        else:
            w1 = (self.w[None] > self.seq[self.i1 % n][:, None, :]).astype(I)
            out = (x[:, None, :] * w1).sum(2)
            self.i1 = self.i1 + x
            if self.mode == "bipolar":
                w0 = 1 - (self.w[None] > self.seq[self.i0 % n][:, None, :]).astype(I)
                out = out + ((1 - x)[:, None, :] * w0).sum(2)
                self.i0 = self.i0 + 1 - x
        if self.b is not None:
            out = out + (self.b > self.seq[self.t % n]).astype(I)[None]
        self.t += 1
        return out


class Linear:
    def __init__(self, mode, temporal, weight, bias, seq, scale, depth, batch, entry=None):
        w = np.asarray(weight)
        n = w.shape[1] + (bias is not None)
        self.pc = LinearPC(mode, temporal, weight, bias, seq)
        self.add = Add(mode, n if scale is None else scale, n if entry is None else entry, depth, (batch, w.shape[0]))

    def step(self, x):
        return self.add.step(self.pc.step(x))


def patches(x, k, stride, pad, dil, fill):
    """x [b,c,h,w] -> ([b*L, c*kh*kw], (oh, ow)); positions row-major."""
    x = np.pad(x, ((0, 0), (0, 0), (pad[0], pad[0]), (pad[1], pad[1])), constant_values=fill)
    b, c, h, w = x.shape
    oh = (h - dil[0] * (k[0] - 1) - 1) // stride[0] + 1
    ow = (w - dil[1] * (k[1] - 1) - 1) // stride[1] + 1
    rows = []
    for n in range(b):
        for i in range(oh):
            for j in range(ow):
                hs = [i * stride[0] + u * dil[0] for u in range(k[0])]
                ws = [j * stride[1] + v * dil[1] for v in range(k[1])]
                rows.append(x[n][:, hs][:, :, ws].reshape(-1))
    return np.array(rows), (oh, ow)


def fold(rows, b, oh, ow):
    """[b*L, o] -> [b, o, oh, ow]"""
    return rows.reshape(b, oh, ow, -1).transpose(0, 3, 1, 2)


class Conv2d:
    def __init__(self, mode, temporal, weight, bias, seq, k, stride, pad, dil, scale, depth, pc_only=False):
        w = np.asarray(weight, I)
        self.mode, self.k, self.stride, self.pad, self.dil = mode, k, stride, pad, dil
        self.pc = LinearPC(mode, temporal, w.reshape(w.shape[0], -1), bias, seq)
        self.n = w[0].size + (bias is not None)
        self.scale = self.n if scale is None else scale
        self.depth = depth
        self.add = None
        self.pc_only = pc_only
        self.t = 0

    def step(self, x):
        fill = (self.t % 2) if self.mode == "bipolar" else 0
        self.t += 1
        rows, (oh, ow) = patches(x, self.k, self.stride, self.pad, self.dil, fill)
        out = fold(self.pc.step(rows), x.shape[0], oh, ow)
        if self.pc_only:
            return out
        if self.add is None:
            self.add = Add(self.mode, self.scale, self.n, self.depth, out.shape)
        return self.add.step(out)


class MGU:
    """Streaming minimal gated unit (bipolar)."""

    def __init__(self, wf, bf, wn, bn, hb, seq, seq_is, width_is, depth, batch):
        hid = np.asarray(wf).shape[0]
        self.lf = Linear("bipolar", False, wf, bf, seq, 1, depth, batch)
        self.ln = Linear("bipolar", False, wn, bn, seq, 1, depth, batch)
        self.sg = Add("bipolar", 2, 2, depth, (batch, hid))
        self.mh = MulStatic("bipolar", hb, seq)
        self.mn = MulStream("bipolar", width_is, seq_is, (batch, hid))
        self.hy = Add("bipolar", 1, 3, depth, (batch, hid))

    def step(self, x, h):
        f = self.sg.step(self.lf.step(np.concatenate([h, x], 1)) + 1)
        fh = self.mh.step(f)
        n = self.ln.step(np.concatenate([fh, x], 1))
        fn = self.mn.step(f, n)
        return self.hy.step(n + (1 - fn) + fh)


# ------------------------------------------------------------------ metrics

class ProgError:
    def __init__(self, source, scale, mode):
        self.src = np.clip(np.asarray(source, float) / scale, -1, 1)
        self.mode, self.n, self.ones = mode, 0, np.zeros(self.src.shape)

    def monitor(self, b):
        self.n += 1
        self.ones = self.ones + b

    def read(self):
        pp = self.ones / self.n
        if self.mode == "bipolar":
            pp = 2 * pp - 1
        return pp, pp - self.src


class Stability:
    def __init__(self, source, scale, mode, thr):
        self.p = ProgError(source, scale, mode)
        self.thr = thr
        self.last = np.zeros(self.p.src.shape)
        self.close = self.tied = False
        v = np.append(self.p.src, thr) * 4096
        self.dyadic = bool((v == np.round(v)).all())

    def monitor(self, b):
        self.p.monitor(b)
        e = np.abs(self.p.read()[1])
        # an error this near to the threshold may fall on either side in float32,
        # unless all numbers involved are exact there
        n = self.p.n
        near = np.abs(e - self.thr) < 1e-5
        if near.any():
            low = n & -n
            exact = (self.p.ones * low) % n == 0 if self.dyadic else np.zeros(e.shape, bool)
            if (near & ~exact).any():
                self.close = True
            if (near & exact).any():
                self.tied = True
        self.last = np.where(e > self.thr, self.p.n, self.last)

    def read(self):
        return 1 - np.maximum(self.last, 1) / self.p.n


class Correlation:
    def __init__(self, shape):
        self.a = np.zeros(shape)
        self.b = np.zeros(shape)
        self.c = np.zeros(shape)
        self.d = np.zeros(shape)
        self.n = 0
        self.prev = np.zeros(shape, I)

    def monitor(self, x, y=None):
        if y is None:
            y = self.prev
            self.prev = np.array(x)
        self.n += 1
        self.a = self.a + (x == 1) * (y == 1)
        self.b = self.b + (x == 1) * (y == 0)
        self.c = self.c + (x == 0) * (y == 1)
        self.d = self.d + (x == 0) * (y == 0)

    def read(self):
        """SCC of Alaghi and Hayes with n = a+b+c+d; 0 where undefined."""
        a, b, c, d, n = self.a, self.b, self.c, self.d, self.n
        num = a * d - b * c
        pos = n * np.minimum(a + b, a + c) - (a + b) * (a + c)
        neg = (a + b) * (a + c) - n * np.maximum(a - d, 0)
        den = np.where(num > 0, pos, neg)
        return np.where(num == 0, 0.0, num / np.where(den == 0, 1, den))


# ----------------------------------------------------------- number sources

def ramp(kind, width):
    s = list(range(2 ** width))
    return s if kind in ("race", "tc") else s[::-1]
