"""Interpreter of the terms of spec/Proper.tla over pixel arrays.

Deliberately written with numpy's transforms and scipy's ndimage only.
"""
import numpy as np
import scipy.ndimage as nd

EPS = np.finfo(float).eps


class Terms:
    def __init__(self, shape, inputs):
        self.shape = tuple(shape)
        self.env = dict(inputs)
        y, x = np.mgrid[: shape[0], : shape[1]]
        self.y, self.x = y, x

    def run(self, program):
        for name, t in program:
            self.env[name] = self.ev(t)
        return self.env

    def ev(self, t):
        op, a = t[0], t[1:]
        if op == "v":
            return self.env[a[0]]
        if op == "n":
            return float(a[0])
        if op == "field":
            return self.ev(a[0])(self.y, self.x)
        v = [self.ev(s) for s in a]
        return getattr(self, "op_" + op)(*v)

    def op_add(self, a, b):
        return a + b

    def op_sub(self, a, b):
        return a - b

    def op_mul(self, a, b):
        return a * b

    def op_div(self, a, b):
        return a / b

    def op_neg(self, a):
        return -a

    def op_conj(self, a):
        return np.conj(a)

    def op_sqrt(self, a):
        return np.sqrt(a)

    def op_real(self, a):
        return np.real(a)

    def op_round(self, a):
        return int(np.rint(a))

    def op_fft(self, a):
        return np.fft.fft2(a, s=self.shape, norm="ortho")

    def op_fftp(self, a):
        return np.fft.fft2(a, s=self.shape)

    def op_ifft(self, a):
        return np.fft.ifft2(a, norm="ortho")

    def op_ifftp(self, a):
        return np.fft.ifft2(a)

    def op_shift(self, a, dy, dx):
        if dy == 0 and dx == 0:
            return a
        f0 = np.fft.fftfreq(self.shape[0])[:, None]
        f1 = np.fft.fftfreq(self.shape[1])[None, :]
        return a * np.exp(-2j * np.pi * (f0 * dy + f1 * dx))

    def op_comy(self, a):
        return nd.center_of_mass(a)[0]

    def op_comx(self, a):
        return nd.center_of_mass(a)[1]

    def _ctr(self, a):
        c = nd.center_of_mass(a)
        p = np.unravel_index(np.argmax(a), a.shape)
        return p if abs(c[0] - p[0]) > 30 or abs(c[1] - p[1]) > 30 else c

    def op_ctry(self, a):
        return self._ctr(a)[0]

    def op_ctrx(self, a):
        return self._ctr(a)[1]

    def op_sum(self, a):
        return np.sum(a)

    def op_roll(self, a, dy, dx):
        return np.roll(a, (dy, dx), (0, 1))

    def op_guard(self, a):
        return np.where(a.real == 0, EPS, a)

    def op_blur(self, a, b):
        return nd.convolve(np.asarray(a, float), np.asarray(b, float))

    def op_msum(self, m, a):
        return float(np.sum(np.abs(a[~m])))

    def op_clipmean(self, a):
        a = np.asarray(a, float)
        while True:
            m, s = np.median(a), np.std(a)
            k = a[np.abs(a - m) <= 3 * s]
            if len(k) == len(a):
                return float(np.mean(a))
            a = k
