"""C02: camera projection models."""

import copy
import math
import pickle

import cams
import numpy as np
from gen import fl, grid, st, ugrid
from harness import Check, check
from opensfm import pygeometry

CHECK = Check("C02")
CHECK.assumptions = [
    "distortions are invertible on 1.5 times the radius in use, with a margin (the symmetric part of "
    "their Jacobian is above 0.45 everywhere)",
    "dual cameras are used up to 57 degrees off axis",
]

dirs_s = st.lists(st.tuples(grid(0.0, 1.0), ugrid(math.pi)), min_size=1, max_size=4)
case_s = st.tuples(cams.cameras(), dirs_s, grid(0.1, 50.0))


def bound(cam):
    return cams.MAX_R.get(cam["type"], 1.0)


@CHECK.sub("project_bearing", case_s, 2400, rule="a camera with distortion, and a point off the axis")
def project_bearing(case, t):
    cam, dirs, depth = case
    c = cams.make(cam)
    t.label(cam["type"])
    D = np.array([cams.direction(cam, r * bound(cam), a) for r, a in dirs])
    t.nontrivial((cam["type"] == "spherical" or any(cam["dist"])) and any(r > 0.05 for r, _ in dirs))
    want = np.array([cams.project(cam, d) for d in D])
    got = np.array([c.project(d * depth) for d in D])
    check(np.allclose(got, want, rtol=1e-9, atol=1e-9), "project", got, want)
    many = c.project_many(D * depth)
    check(many.shape == (len(D), 2) and np.array_equal(many, got), "project_many", many, got)
    back = np.array([c.pixel_bearing(p) for p in want])
    check(np.allclose(np.linalg.norm(back, axis=1), 1, atol=1e-9), "bearing is not a unit vector", back)
    check(np.allclose(back, D, rtol=0, atol=6e-6), "bearing", back, D)
    check(np.array_equal(c.pixel_bearing_many(want), back), "bearing_many")
    again = c.project_many(back)
    check(np.allclose(again, want, rtol=0, atol=4e-5), "round trip", again, want)


@CHECK.sub("center", cams.cameras(), 300, rule="always")
def center(cam, t):
    """The optical axis and the principal point correspond."""
    t.label(cam["type"])
    t.nontrivial()
    c = cams.make(cam)
    pp = np.array(cam["pp"]) if cam["type"] in cams.AFFINE else np.zeros(2)
    check(np.allclose(c.project(np.array([0, 0, 2.0])), pp, atol=1e-12), "axis")
    check(np.allclose(c.pixel_bearing(pp), [0, 0, 1], atol=1e-9), "bearing of the center")
    for e in (1e-12, 1e-9, 1e-7):
        b = c.pixel_bearing(pp + np.array([e, -e]))
        check(np.allclose(b, [0, 0, 1], atol=1e-5), "near the center", b)
        check(np.allclose(c.project(np.array([e, -e, 1.0])), cams.project(cam, (e, -e, 1.0)), atol=1e-12), "near")


@CHECK.sub("pixels", st.tuples(cams.sizes, st.lists(st.tuples(fl(-100, 6000), fl(-100, 6000)), max_size=5)), 500,
           rule="a pixel that is not the center, on an image that is not square")
def pixels(case, t):
    (w, h), pts = case
    t.nontrivial(w != h and len(pts) > 0)
    c = pygeometry.Camera.create_perspective(1.0, 0.0, 0.0)
    c.width, c.height = w, h
    P = np.array(pts, float).reshape(-1, 2)
    want = np.array([((x - (w - 1) / 2) / max(w, h), (y - (h - 1) / 2) / max(w, h)) for x, y in pts]).reshape(-1, 2)
    K = pygeometry.Camera
    for got in (
        c.pixel_to_normalized_coordinates_many(P),
        K.pixel_to_normalized_coordinates_many_common(P, w, h),
        np.array([c.pixel_to_normalized_coordinates(p) for p in P]).reshape(-1, 2),
        np.array([K.pixel_to_normalized_coordinates_common(p, w, h) for p in P]).reshape(-1, 2),
    ):
        check(got.shape == want.shape and np.allclose(got, want, rtol=1e-12, atol=1e-12), "normalized", got, want)
    for got in (
        c.normalized_to_pixel_coordinates_many(want),
        K.normalized_to_pixel_coordinates_many_common(want, w, h),
        np.array([c.normalized_to_pixel_coordinates(p) for p in want]).reshape(-1, 2),
        np.array([K.normalized_to_pixel_coordinates_common(p, w, h) for p in want]).reshape(-1, 2),
    ):
        check(got.shape == P.shape and np.allclose(got, P, rtol=1e-10, atol=1e-9), "pixels", got, P)


def state(cam):
    """What a camera must report."""
    t = cam["type"]
    d = {}
    if t == "spherical":
        return d
    d["focal"] = cam["focal"]
    for i, v in zip(cams.SLOTS[t], cam["dist"]):
        d[cams.NAMES[i]] = v
    if t in cams.AFFINE:
        d["aspect_ratio"], d["cx"], d["cy"] = cam["ar"], cam["pp"][0], cam["pp"][1]
    if t == "dual":
        d["transition"] = cam["transition"]
    return d


def reported(c):
    m = {str(k).split(".")[-1]: v for k, v in c.get_parameters_map().items()}
    m.pop("none", None)
    return m


def verify_state(c, cam, what):
    want = state(cam)
    got = reported(c)
    check(got == want, what, got, want)
    check(c.projection_type == cam["type"], what, c.projection_type)
    check((c.width, c.height, c.id) == (cam["width"], cam["height"], cam["id"]), what)
    types = [str(k).split(".")[-1] for k in c.get_parameters_types()]
    values = list(c.get_parameters_values())
    check({k: v for k, v in zip(types, values) if k != "none"} == want, what, "types and values")
    if cam["type"] != "spherical":
        check(c.focal == cam["focal"], what, "focal")
    for i, v in zip(cams.SLOTS[cam["type"]], cam["dist"]):
        check(getattr(c, cams.NAMES[i]) == v, what, cams.NAMES[i])
    check(list(c.distortion) == list(cam["dist"]), what, "distortion", c.distortion, cam["dist"])
    f, ar, pp = 1.0, 1.0, [0.0, 0.0]
    if cam["type"] != "spherical":
        f = cam["focal"]
    if cam["type"] in cams.AFFINE:
        ar, pp = cam["ar"], cam["pp"]
        check(c.aspect_ratio == ar and list(c.principal_point) == list(pp), what, "affine")
    if cam["type"] == "dual":
        check(c.transition == cam["transition"], what, "transition")
    K = np.array([[f, 0, pp[0]], [0, f * ar, pp[1]], [0, 0, 1]])
    check(np.allclose(c.get_K(), K, rtol=1e-12, atol=0), what, "K")
    w, h = 1200, 900
    S = np.array([[1200, 0, 600], [0, 1200, 450], [0, 0, 1.0]])
    check(np.allclose(c.get_K_in_pixel_coordinates(w, h), S @ K, rtol=1e-12, atol=1e-9), what, "K in pixels")


op_s = st.one_of(
    st.tuples(st.just("focal"), grid(0.3, 2.0)),
    st.tuples(st.just("aspect_ratio"), grid(0.8, 1.2)),
    st.tuples(st.just("principal_point"), st.tuples(ugrid(0.1), ugrid(0.1))),
    st.tuples(st.just("transition"), grid(0.0, 1.0)),
    st.tuples(st.just("distortion"), st.lists(ugrid(0.3), min_size=12, max_size=12)),
    st.tuples(st.just("parameter"), st.tuples(st.integers(0, 30), ugrid(0.4))),
    st.tuples(st.just("values"), st.lists(ugrid(0.4), min_size=17, max_size=17)),
    st.tuples(st.just("clone"), st.sampled_from(["copy", "deepcopy", "pickle"])),
)


@CHECK.sub("accessors", st.tuples(cams.cameras(settled=False), st.lists(op_s, max_size=6)), 800,
           rule="at least two changes that apply to the camera")
def accessors(case, t):
    """Each change of a parameter is seen in every view, and nothing else moves."""
    cam, ops = case
    cam = copy.deepcopy(cam)
    c = cams.make(cam)
    verify_state(c, cam, "made")
    changes = 0
    for name, arg in ops:
        kind = cam["type"]
        if name == "clone":
            old, before = c, copy.deepcopy(cam)
            c = {"copy": copy.copy, "deepcopy": copy.deepcopy,
                 "pickle": lambda x: pickle.loads(pickle.dumps(x))}[arg](c)
            if kind != "spherical":
                c.focal = cam["focal"] = cam["focal"] + 0.25
                verify_state(old, before, "the original of a " + arg)
        elif name == "values":
            n = len(c.get_parameters_values())
            if kind == "spherical":
                continue
            names = [str(k).split(".")[-1] for k in c.get_parameters_types()]
            c.set_parameters_values(np.array(arg[:n]))
            apply(cam, dict(zip(names, arg)))
        elif name == "parameter":
            names = sorted(state(cam))
            if not names:
                continue
            which = names[arg[0] % len(names)]
            c.set_parameter_value(getattr(pygeometry.CameraParameters, which), arg[1])
            apply(cam, {which: arg[1]})
        elif name == "distortion":
            n = cams.NDIST[kind]
            c.distortion = np.array(arg[:n], float)
            cam["dist"] = list(arg[:n])
        elif name == "focal" and kind != "spherical":
            c.focal = cam["focal"] = arg
        elif name == "aspect_ratio" and kind in cams.AFFINE:
            c.aspect_ratio = cam["ar"] = arg
        elif name == "principal_point" and kind in cams.AFFINE:
            c.principal_point = np.array(arg)
            cam["pp"] = list(arg)
        elif name == "transition" and kind == "dual":
            c.transition = cam["transition"] = arg
        else:
            continue
        changes += 1
        verify_state(c, cam, name)
    t.nontrivial(changes > 1)
    # the changed parameters are those in use
    if cam["focal"] and kind_ok(cam):
        p = np.array([0.11, -0.07, 1.0])
        check(np.allclose(c.project(p), cams.project(cam, p), rtol=1e-9, atol=1e-9), "project after changes")


def kind_ok(cam):
    return all(abs(x) < 1e3 for x in cam["dist"])


def apply(cam, changes):
    for k, v in changes.items():
        if k == "focal":
            cam["focal"] = v
        elif k == "aspect_ratio":
            cam["ar"] = v
        elif k == "cx":
            cam["pp"] = [v, cam["pp"][1]]
        elif k == "cy":
            cam["pp"] = [cam["pp"][0], v]
        elif k == "transition":
            cam["transition"] = v
        else:
            i = cams.SLOTS[cam["type"]].index(cams.NAMES.index(k))
            cam["dist"] = cam["dist"][:i] + [v] + cam["dist"][i + 1:]


PLAIN = ("perspective", "brown", "fisheye", "fisheye_opencv", "radial", "simple_radial", "dual")


@CHECK.sub("mapping", st.tuples(cams.cameras(types=PLAIN), grid(0.8, 1.5), st.sampled_from([(8, 6), (6, 9), (5, 5), (7, 4)])),
           200, rule="the source camera has distortion")
def mapping(case, t):
    """The remapping table between two cameras samples one through the other."""
    cam, f, (w, h) = case
    t.nontrivial(any(cam["dist"]))
    src = cams.make(cam)
    plain = {"type": "perspective", "focal": f, "dist": [0.0, 0.0]}
    dst = pygeometry.Camera.create_perspective(f, 0.0, 0.0)
    mx, my = pygeometry.compute_camera_mapping(src, dst, w, h)
    check(np.shape(mx) == (h, w) and np.shape(my) == (h, w), "shape", np.shape(mx))
    m = max(w, h)
    for v in range(h):
        for u in range(w):
            q = (u - w / 2) / m / plain["focal"], (v - h / 2) / m / plain["focal"], 1.0
            p = cams.project(cam, q)
            check(abs(mx[v][u] - (m * p[0] + w / 2)) < 1e-3 and abs(my[v][u] - (m * p[1] + h / 2)) < 1e-3,
                  "pixel", u, v, mx[v][u], my[v][u], p)
