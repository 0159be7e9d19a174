"""C01: geodetic conversions, in Python and in C++."""

import math

import numpy as np
from gen import fl, st, ugrid
from harness import Check, check
from opensfm import geo, pygeo

CHECK = Check("C01")
CHECK.assumptions = [
    "latitudes within 89.9 degrees of the equator, altitudes between -12 km and 60 km"
]

A = 6378137.0
B = 6356752.314245
E2 = 1 - (B / A) ** 2

lat_s = st.one_of(ugrid(89.9), fl(-89.9, 89.9), st.sampled_from([0.0, 45.0, -45.0, 89.9, -89.9]))
lon_s = st.one_of(
    ugrid(180.0), fl(-180.0, 180.0), st.sampled_from([0.0, 90.0, -90.0, 180.0, -180.0, 179.9999, -179.9999])
)
alt_s = st.one_of(ugrid(12000.0), fl(-12000.0, 60000.0), st.sampled_from([0.0, 8848.0, -430.0]))
lla_s = st.tuples(lat_s, lon_s, alt_s)
near_s = st.tuples(ugrid(0.1), ugrid(0.1), ugrid(500.0))


def ref_ecef(lat, lon, alt):
    s, c = math.sin(math.radians(lat)), math.cos(math.radians(lat))
    n = A / math.sqrt(1 - E2 * s * s)
    return np.array([
        (n + alt) * c * math.cos(math.radians(lon)),
        (n + alt) * c * math.sin(math.radians(lon)),
        (n * (1 - E2) + alt) * s,
    ])


def ref_lla(p):
    x, y, z = p
    r = math.hypot(x, y)
    lat = math.atan2(z, r * (1 - E2))
    for _ in range(50):
        s = math.sin(lat)
        n = A / math.sqrt(1 - E2 * s * s)
        lat = math.atan2(z + E2 * n * s, r)
    s, c = math.sin(lat), math.cos(lat)
    n = A / math.sqrt(1 - E2 * s * s)
    return math.degrees(lat), math.degrees(math.atan2(y, x)), r * c + z * s - n * (1 - E2 * s * s)


def ref_axes(lat, lon):
    la, lo = math.radians(lat), math.radians(lon)
    east = np.array([-math.sin(lo), math.cos(lo), 0])
    north = np.array([-math.sin(la) * math.cos(lo), -math.sin(la) * math.sin(lo), math.cos(la)])
    up = np.array([math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la)])
    return east, north, up


def same_lla(a, b, tol_m):
    dlat = math.radians(a[0] - b[0]) * A
    dl = (a[1] - b[1] + 180.0) % 360.0 - 180.0
    dlon = math.radians(dl) * A * math.cos(math.radians(b[0]))
    return abs(dlat) < tol_m and abs(dlon) < tol_m and abs(a[2] - b[2]) < tol_m


@CHECK.sub("ecef", lla_s, 1500, rule="the position is off the equator and off the ellipsoid")
def ecef(case, t):
    lat, lon, alt = case
    t.nontrivial(abs(lat) > 1 and abs(alt) > 1)
    want = ref_ecef(lat, lon, alt)
    for name, got in (
        ("py", np.array(geo.ecef_from_lla(lat, lon, alt))),
        ("c3", np.array(pygeo.ecef_from_lla(lat, lon, alt))),
        ("cv", np.array(pygeo.ecef_from_lla(np.array(case)))),
    ):
        check(np.allclose(got, want, rtol=0, atol=1e-6), name, "ecef_from_lla", got, want)
    # positions on either side of a round trip
    x, y, z = want
    check(same_lla(ref_lla(want), case, 1e-5), "reference")
    for name, got in (
        ("py", geo.lla_from_ecef(x, y, z)),
        ("c3", pygeo.lla_from_ecef(x, y, z)),
        ("cv", pygeo.lla_from_ecef(want)),
    ):
        check(same_lla(got, case, 1e-3), name, "lla_from_ecef", got, case)
        check(-180.0 <= got[1] <= 180.0 and -90 <= got[0] <= 90, "range", got)


@CHECK.sub("frame", st.tuples(lla_s, st.one_of(near_s.map(lambda d: (1,) + d), lla_s.map(lambda p: (0,) + p))),
           1500, rule="the two positions differ")
def frame(case, t):
    ref, q = case
    if q[0]:
        p = (
            max(-89.9, min(89.9, ref[0] + q[1])),
            (ref[1] + q[2] + 180.0) % 360.0 - 180.0,
            ref[2] + q[3],
        )
    else:
        p = q[1:]
    t.label("near" if q[0] else "far")
    t.nontrivial(tuple(p) != tuple(ref))
    east, north, up = ref_axes(ref[0], ref[1])
    d = ref_ecef(*p) - ref_ecef(*ref)
    want = np.array([d @ east, d @ north, d @ up])
    tol = 2e-6
    for name, got in (
        ("py", geo.topocentric_from_lla(*p, *ref)),
        ("py class", geo.TopocentricConverter(*ref).to_topocentric(*p)),
        ("c6", pygeo.topocentric_from_lla(*p, *ref)),
        ("cv", pygeo.topocentric_from_lla(np.array(p), np.array(ref))),
    ):
        check(np.allclose(got, want, rtol=0, atol=tol), name, "topocentric_from_lla", got, want)
    x, y, z = want
    for name, got in (
        ("py", geo.lla_from_topocentric(x, y, z, *ref)),
        ("py class", geo.TopocentricConverter(*ref).to_lla(x, y, z)),
        ("c6", pygeo.lla_from_topocentric(x, y, z, *ref)),
        ("cv", pygeo.lla_from_topocentric(want, np.array(ref))),
    ):
        check(same_lla(got, p, 1e-3), name, "lla_from_topocentric", got, p)
    T = np.eye(4)
    T[:3, 0], T[:3, 1], T[:3, 2], T[:3, 3] = east, north, up, ref_ecef(*ref)
    for name, got, tol in (
        ("py", geo.ecef_from_topocentric_transform(*ref), 1e-9),
        ("c3", pygeo.ecef_from_topocentric_transform(*ref), 1e-9),
        ("cv", pygeo.ecef_from_topocentric_transform(np.array(ref)), 1e-9),
        ("py fd", geo.ecef_from_topocentric_transform_finite_diff(*ref), 1e-5),
        ("c3 fd", pygeo.ecef_from_topocentric_transform_finite_diff(*ref), 1e-5),
        ("cv fd", pygeo.ecef_from_topocentric_transform_finite_diff(np.array(ref)), 1e-5),
    ):
        got = np.array(got)
        check(got.shape == (4, 4) and np.allclose(got[:, :3], T[:, :3], rtol=0, atol=tol), name, got, T)
        check(np.allclose(got[:, 3], T[:, 3], rtol=0, atol=1e-6), name, "origin", got, T)


@CHECK.sub("arrays", st.tuples(lla_s, st.lists(lla_s, min_size=1, max_size=6), st.sampled_from([1, 2])), 300,
           rule="at least two positions")
def arrays(case, t):
    ref, pts, nd = case
    t.nontrivial(len(pts) > 1)
    P = np.array(pts)
    shape = (len(pts),) if nd == 1 else (len(pts), 1)
    cols = [P[:, i].reshape(shape) for i in range(3)]
    for name, f, inv, args in (
        ("ecef", geo.ecef_from_lla, geo.lla_from_ecef, ()),
        ("topo", geo.topocentric_from_lla, geo.lla_from_topocentric, tuple(ref)),
    ):
        got = f(*cols, *args)
        for k, p in enumerate(pts):
            one = f(*p, *args)
            for i in range(3):
                check(np.shape(got[i]) == shape, name, "shape")
                check(abs(np.ravel(got[i])[k] - one[i]) < 1e-6, name, k, i)
        back = inv(*got, *args)
        for k, p in enumerate(pts):
            check(same_lla([np.ravel(b)[k] for b in back], p, 1e-3), name, "inverse", p)


@CHECK.sub("distance", st.tuples(lla_s, lla_s, near_s), 600, rule="the positions differ")
def distance(case, t):
    p, q, d = case
    near = (max(-89.9, min(89.9, p[0] + d[0])), (p[1] + d[1] + 180) % 360 - 180)
    t.nontrivial(p[:2] != q[:2])
    for a, b in ((p[:2], q[:2]), (p[:2], near)):
        want = np.linalg.norm(ref_ecef(a[0], a[1], 0) - ref_ecef(b[0], b[1], 0))
        for name, f in (("py", geo.gps_distance), ("c", lambda x, y: pygeo.gps_distance(np.array(x), np.array(y)))):
            check(abs(f(a, b) - want) < 1e-6, name, f(a, b), want)
            check(f(a, b) == f(b, a) or abs(f(a, b) - f(b, a)) < 1e-9, name, "symmetry")
            check(f(a, a) == 0, name, "identity")


@CHECK.sub("reference", st.tuples(lla_s, lla_s), 200, rule="two different references")
def reference(case, t):
    a, b = case
    t.nontrivial(a != b)
    c = geo.TopocentricConverter(*a)
    check((c.lat, c.lon, c.alt) == tuple(a))
    d = pygeo.TopocentricConverter(*a)
    check((d.lat, d.lon, d.alt) == tuple(a))
    check(c == geo.TopocentricConverter(*a))
    far = any(abs(x - y) > 1e-2 + 1e-4 * abs(y) for x, y in zip(a, b))
    if far:
        check(not (c == geo.TopocentricConverter(*b)), "different references compare equal", a, b)
