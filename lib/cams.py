"""Reference camera models, written from their definitions, and generators of
cameras on which the distortion is invertible."""

import math

import numpy as np
from gen import grid, st, ugrid
from opensfm import pygeometry

NDIST = {
    "perspective": 2, "brown": 5, "fisheye": 2, "fisheye_opencv": 4, "fisheye62": 8,
    "fisheye624": 12, "spherical": 0, "dual": 2, "radial": 2, "simple_radial": 1,
}
TYPES = list(NDIST)
AFFINE = {"brown", "fisheye_opencv", "fisheye62", "fisheye624", "radial", "simple_radial"}
FISH = {"fisheye", "fisheye_opencv", "fisheye62", "fisheye624"}
# position of the coefficients within k1..k6, p1, p2, s0..s3
SLOTS = {
    "perspective": [0, 1], "brown": [0, 1, 2, 6, 7], "fisheye": [0, 1], "fisheye_opencv": [0, 1, 2, 3],
    "fisheye62": list(range(8)), "fisheye624": list(range(12)), "spherical": [], "dual": [0, 1],
    "radial": [0, 1], "simple_radial": [0],
}
NAMES = ["k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2", "s0", "s1", "s2", "s3"]

MAX_R = {"perspective": 1.2, "brown": 1.0, "fisheye": 1.4, "fisheye_opencv": 1.3, "fisheye62": 1.2,
         "fisheye624": 1.1, "dual": 1.0, "radial": 1.2, "simple_radial": 1.2}


def full(cam):
    z = np.zeros(12)
    z[SLOTS[cam["type"]]] = cam["dist"]
    return z


def distort(z, p):
    x, y = p
    r2 = x * x + y * y
    rad = 1.0
    for i in range(6):
        rad = rad + z[i] * r2 ** (i + 1)
    p1, p2, s0, s1, s2, s3 = z[6:]
    return np.array([
        x * rad + 2 * p1 * x * y + p2 * (r2 + 2 * x * x) + s0 * r2 + s1 * r2 * r2,
        y * rad + 2 * p2 * x * y + p1 * (r2 + 2 * y * y) + s2 * r2 + s3 * r2 * r2,
    ])


_R, _A = np.meshgrid(np.linspace(0, 1, 10), np.linspace(0, 2 * math.pi, 12, endpoint=False))
_DISK = np.stack([(_R * np.cos(_A)).ravel(), (_R * np.sin(_A)).ravel()])


def _margin(z, R):
    """Least stretch of the distortion over the disk of radius R."""
    h = 1e-5
    P = _DISK * R
    cols = [(distort(z, P + d) - distort(z, P - d)) / (2 * h) for d in (np.array([[h], [0]]), np.array([[0], [h]]))]
    (a, c), (b, d) = cols  # J = [[a, b], [c, d]]
    if np.max(a * a + b * b + c * c + d * d) > 2.6 ** 2:
        return 0.0
    o = (b + c) / 2
    return float(np.min((a + d) / 2 - np.sqrt(((a - d) / 2) ** 2 + o * o)))


def settle(cam):
    """Scales the distortion down until it is comfortably invertible."""
    if cam["type"] == "spherical":
        return cam
    cam = dict(cam)
    d = np.array(cam["dist"], float)
    for _ in range(12):
        cam["dist"] = [float(x) for x in d]
        if _margin(full(cam), 1.5 * MAX_R[cam["type"]]) > 0.45:
            return cam
        d = d * 0.6
    cam["dist"] = [0.0] * len(cam["dist"])
    return cam


def make(cam):
    t, f, k = cam["type"], cam["focal"], np.array(cam["dist"], float)
    C = pygeometry.Camera
    ar, pp = cam["ar"], np.array(cam["pp"], float)
    if t == "perspective":
        c = C.create_perspective(f, k[0], k[1])
    elif t == "fisheye":
        c = C.create_fisheye(f, k[0], k[1])
    elif t == "dual":
        c = C.create_dual(cam["transition"], f, k[0], k[1])
    elif t == "spherical":
        c = C.create_spherical()
    elif t == "simple_radial":
        c = C.create_simple_radial(f, ar, pp, k[0])
    else:
        c = getattr(C, "create_" + t)(f, ar, pp, k)
    c.width, c.height, c.id = cam["width"], cam["height"], cam["id"]
    return c


def project(cam, p):
    """Normalized image coordinates of a direction."""
    t = cam["type"]
    x, y, z = p
    if t == "spherical":
        return np.array([math.atan2(x, z), math.atan2(y, math.hypot(x, z))]) / (2 * math.pi)
    r = math.hypot(x, y)
    fish = np.array([x, y]) * (math.atan2(r, z) / r if r > 0 else 1 / z)
    if t in FISH:
        q = fish
    else:
        q = np.array([x / z, y / z])
        if t == "dual":
            q = cam["transition"] * q + (1 - cam["transition"]) * fish
    q = distort(full(cam), q)
    if t in AFFINE:
        return np.array([cam["focal"] * q[0] + cam["pp"][0], cam["focal"] * cam["ar"] * q[1] + cam["pp"][1]])
    return cam["focal"] * q


def direction(cam, r, a):
    """A unit vector whose undistorted image radius is r, at azimuth a."""
    t = cam["type"]
    if t == "spherical":
        lat = (r - 0.5) * math.pi * 0.998
        return np.array([math.cos(lat) * math.sin(a), math.sin(lat), math.cos(lat) * math.cos(a)])
    if t in FISH:
        th = r
    elif t == "dual":
        th = r
    else:
        th = math.atan(r)
    return np.array([math.sin(th) * math.cos(a), math.sin(th) * math.sin(a), math.cos(th)])


sizes = st.sampled_from([(4000, 3000), (3000, 4000), (640, 480), (1, 1), (101, 57), (64, 64), (5376, 2688), (7, 16)])


@st.composite
def cameras(draw, types=tuple(TYPES), settled=True, amp=0.4):
    t = draw(st.sampled_from(types))
    w, h = draw(sizes)
    k = [draw(ugrid(1.0)) for _ in range(NDIST[t])]
    a = draw(st.sampled_from([0.0, 0.02, 0.1, amp]))
    scale = np.array([1, 1, 1, 1, 1, 1, 0.4, 0.4, 0.4, 0.4, 0.4, 0.4])[SLOTS[t]]
    cam = {
        "type": t, "id": draw(st.sampled_from(["cam", "v2 unknown é", "", "a/b"])),
        "width": w, "height": h,
        "focal": draw(grid(0.3, 3.0)), "ar": draw(st.sampled_from([1.0, 0.9, 1.13, 1.01])),
        "pp": [draw(ugrid(0.1)), draw(ugrid(0.1))],
        "transition": draw(grid(0.0, 1.0, 64)),
        "dist": [a * x * s for x, s in zip(k, scale)],
    }
    return settle(cam) if settled else cam
