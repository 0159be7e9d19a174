"""Generators shared by the checks: all random choices are Hypothesis'."""

import math

import numpy as np
from hypothesis import strategies as st


def fl(lo, hi):
    """Finite floats in a range, with its ends and zero likely."""
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, width=64)


def grid(lo, hi, n=1 << 20):
    """Evenly spread floats: no tiny magnitudes, shrinks towards lo."""
    return st.integers(0, n).map(lambda k: lo + (hi - lo) * (k / n))


def ugrid(h, n=1 << 20):
    """Evenly spread in [-h, h], shrinks to 0."""
    return st.integers(-n, n).map(lambda k: h * (k / n))


seeds = st.integers(0, 2**32 - 1)


def vec(n, h):
    return st.lists(ugrid(h), min_size=n, max_size=n)


def rng(seed):
    """Bulk data expanded from a drawn seed (a pure function of the case)."""
    return np.random.default_rng(seed)


def ids(prefix="", n=8):
    return st.integers(0, n - 1).map(lambda i: f"{prefix}{i}")


def rodrigues(v):
    v = np.asarray(v, float)
    a = np.linalg.norm(v)
    if a < 1e-300:
        return np.eye(3)
    k = v / a
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + math.sin(a) * K + (1 - math.cos(a)) * (K @ K)


def rot_angle(R):
    """Angle of a rotation matrix, accurate for small angles."""
    s = 0.5 * math.sqrt(
        (R[2, 1] - R[1, 2]) ** 2 + (R[0, 2] - R[2, 0]) ** 2 + (R[1, 0] - R[0, 1]) ** 2
    )
    return math.atan2(s, 0.5 * (np.trace(R) - 1))


def rotvec_of(R):
    """Log map through a quaternion: well defined away from the identity too."""
    R = np.asarray(R, float)
    K = np.array([
        [R[0, 0] - R[1, 1] - R[2, 2], 0, 0, 0],
        [R[0, 1] + R[1, 0], R[1, 1] - R[0, 0] - R[2, 2], 0, 0],
        [R[0, 2] + R[2, 0], R[1, 2] + R[2, 1], R[2, 2] - R[0, 0] - R[1, 1], 0],
        [R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1], np.trace(R)],
    ]) / 3.0
    w, V = np.linalg.eigh(K)
    q = V[[3, 0, 1, 2], np.argmax(w)]
    if q[0] < 0:
        q = -q
    n = np.linalg.norm(q[1:])
    if n < 1e-300:
        return np.zeros(3)
    return q[1:] / n * 2 * math.atan2(n, q[0])
