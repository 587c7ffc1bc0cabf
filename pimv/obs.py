"""Helpers for observing the implementation: quantities become integers."""
import numpy as np


class HarnessError(Exception):
    pass


CAP = 10**9


def q(x, scale=1.0):
    """Non-negative residual -> capped integer (ceil); non-finite -> CAP."""
    x = float(abs(x)) * scale
    if not np.isfinite(x):
        return CAP
    return int(min(CAP, np.ceil(x - 1e-12)))


def resid(obs, exp):
    """Relative max-norm residual in units of 1e-9 (CAP when incomparable)."""
    obs = np.asarray(obs)
    exp = np.asarray(exp)
    if obs.shape != exp.shape:
        return CAP
    if obs.size == 0:
        return 0
    if not (np.all(np.isfinite(obs)) and np.all(np.isfinite(exp))):
        return CAP
    den = np.max(np.abs(exp))
    d = np.max(np.abs(obs - exp))
    if den == 0:
        return 0 if d == 0 else CAP
    return q(d / den, 1e9)


def ints(a):
    return [int(v) for v in np.asarray(a).ravel()]
