"""C11: files and serialized data."""

import copy
import io as stdio
import json
import math
import os

import cv2
import numpy as np
from gen import grid, rng, rodrigues, seeds, st, ugrid, vec
from harness import Check, check
import maps
from opensfm import io, pygeometry, pymap, types
from PIL import Image

CHECK = Check("C11")
CHECK.assumptions = [
    "the reconstruction file keeps what its format names: observations, camera orientation angles and free attributes are not in it",
    "image names in gcp_list.txt have no spaces",
    "projected coordinates of control points are compared within 1e-6 degrees",
]

FIELDS = {  # of cameras.json and reconstruction.json
    "perspective": ["focal", "k1", "k2"], "fisheye": ["focal", "k1", "k2"], "dual": ["focal", "k1", "k2", "transition"], "spherical": [],
    "brown": ["focal_x", "focal_y", "c_x", "c_y", "k1", "k2", "p1", "p2", "k3"],
    "fisheye_opencv": ["focal_x", "focal_y", "c_x", "c_y", "k1", "k2", "k3", "k4"],
    "fisheye62": ["focal_x", "focal_y", "c_x", "c_y", "k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2"],
    "fisheye624": ["focal_x", "focal_y", "c_x", "c_y", "k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2", "s0", "s1", "s2", "s3"],
    "radial": ["focal_x", "focal_y", "c_x", "c_y", "k1", "k2"], "simple_radial": ["focal_x", "focal_y", "c_x", "c_y", "k1"],
}
T = pygeometry.CameraParameters


def param(cam, name):
    v = dict(cam.get_parameters_map())
    get = lambda k: v[getattr(T, k)]
    if name == "focal_x":
        return get("focal")
    if name == "focal_y":
        return get("focal") * get("aspect_ratio")
    return get({"c_x": "cx", "c_y": "cy"}.get(name, name))


def close(a, b, tol=1e-12):
    return abs(a - b) <= tol * (1 + abs(b))


def camera_fields(cam):
    return {k: param(cam, k) for k in FIELDS[cam.projection_type]}


def same_camera(a, b, *what):
    ka, kb = maps.camera_key(a), maps.camera_key(b)
    check(ka[:4] == kb[:4] and np.allclose(ka[4:], kb[4:], rtol=1e-12, atol=1e-14), *what, ka, "instead of", kb)


def from_fields(name, kind, f):
    """The camera that the fields describe."""
    C = pygeometry.Camera
    d = lambda *ks: np.array([f.get(k, 0.0) for k in ks])
    if kind in ("perspective", "fisheye"):
        c = getattr(C, "create_" + kind)(f["focal"], *d("k1", "k2"))
    elif kind == "dual":
        c = C.create_dual(f.get("transition", 0.5), f["focal"], *d("k1", "k2"))
    elif kind in ("spherical", "equirectangular"):
        c = C.create_spherical()
    else:
        a = f["focal_x"], f["focal_y"] / f["focal_x"], d("c_x", "c_y")
        if kind == "simple_radial":
            c = C.create_simple_radial(*a, f.get("k1", 0.0))
        else:
            order = {"brown": ["k1", "k2", "k3", "p1", "p2"], "radial": ["k1", "k2"], "fisheye_opencv": ["k1", "k2", "k3", "k4"],
                     "fisheye62": ["k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2"],
                     "fisheye624": ["k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2", "s0", "s1", "s2", "s3"]}[kind]
            c = getattr(C, "create_" + kind)(*a, d(*order))
    c.id = name
    return c


@CHECK.sub(
    "cameras",
    st.fixed_dictionaries({"kind": st.sampled_from(sorted(FIELDS) + ["equirectangular", "default"]), "v": vec(16, 0.3), "f": grid(0.3, 3), "asp": grid(0.7, 1.4),
                           "size": st.tuples(st.integers(0, 9000), st.integers(0, 9000)), "missing": st.lists(st.integers(0, 15), max_size=6), "minify": st.booleans()}),
    quick=1500, rule="the camera has distortion and none of its fields is missing",
)
def cameras(c, t):
    """Cameras as JSON, and as vectors."""
    kind = c["kind"]
    real = "perspective" if kind == "default" else kind
    names = FIELDS.get(real, [])
    f = {}
    for i, k in enumerate(names):
        if k in ("focal", "focal_x"):
            f[k] = c["f"]
        elif k == "focal_y":
            f[k] = c["f"] * c["asp"]
        elif i not in c["missing"]:
            f[k] = abs(c["v"][i]) if k == "transition" else c["v"][i]
    obj = dict(f, width=c["size"][0], height=c["size"][1])
    if kind != "default":
        obj["projection_type"] = kind
    name = "v2 sony é %d 0.85" % c["size"][0]
    want = from_fields(name, real, f)
    want.width, want.height = c["size"]
    text = io.json_dumps({name: obj}, c["minify"])
    got = io.cameras_from_json(io.json_loads(text))
    check(list(got) == [name])
    same_camera(got[name], want, "camera from JSON")
    # the way out
    out = json.loads(io.json_dumps(io.cameras_to_json({name: want}), c["minify"]))
    check(list(out) == [name])
    o = out[name]
    check(pygeometry.Camera.is_panorama(o["projection_type"]) if real == "equirectangular" else o["projection_type"] == real, "projection type", o)
    check(o["width"] == c["size"][0] and o["height"] == c["size"][1], "size", o)
    for k in names:
        check(close(o[k], param(want, k)), "field", k, o[k], "instead of", param(want, k))
    same_camera(io.cameras_from_json(out)[name], want, "camera written and read")
    # vectors
    p = io.camera_to_vector(want)
    check(len(p) == len(names), "vector", p)
    # the order of the vector: focals, center, then coefficients as in the file
    for k, x in zip(names, p):
        check(close(x, param(want, k)), "component", k, "of the vector", x, param(want, k))
    same_camera(io.camera_from_vector(name, *c["size"], want.projection_type, p), want, "camera of a vector")
    t.nontrivial(len(names) > 2 and len(f) == len(names))
    t.label(kind)


def kept(m):
    """What a reconstruction file keeps of a model."""
    m = copy.deepcopy(m)
    m.obs = {}
    for d in (m.shots, m.panos):
        for s in d.values():
            s.meta = {k: v for k, v in s.meta.items() if k not in ("opk_angles", "opk_accuracy", "attributes")}
    return m


def near(a, b, tol=1e-9):
    return np.allclose(np.array(a, float), np.array(b, float), atol=tol, rtol=tol)


@CHECK.sub(
    "reconstructions",
    st.fixed_dictionaries({"starts": st.lists(st.sampled_from(["rich", "rich", "base", "empty"]), min_size=1, max_size=3),
                           "ops": maps.histories(st.tuples(st.integers(0, 2), maps.ops_strategy(with_transfers=False)), (1, 4, 12, 25)), "minify": st.booleans(),
                           "single": st.booleans()}),
    quick=700, rule="a rig of two images, points and panorama images",
)
def reconstructions(c, t):
    """Reconstructions written and read, and the fields of the file."""
    recs, models = [], []
    for start in c["starts"]:
        r, m = types.Reconstruction(), maps.Model()
        for op in maps.START[start]:
            maps.apply(op, r, m)
        recs.append(r)
        models.append(m)
    for which, op in c["ops"]:
        i = which % len(recs)
        maps.apply(op, recs[i], models[i])
    text = io.json_dumps(io.reconstructions_to_json(recs), c["minify"])
    for r, m in zip(recs, models):
        maps.compare(r, m)  # writing changes nothing
    def no_constants(x):
        raise ValueError(x)
    obj = json.loads(text, parse_constant=no_constants)
    check(len(obj) == len(recs))
    rich = False
    for o, m in zip(obj, models):
        m = kept(m)
        check(set(o["cameras"]) == set(m.cams) and set(o["shots"]) == set(m.shots) and set(o["points"]) == set(m.points), "contents of the file")
        check(set(o.get("pano_shots", {})) == set(m.panos) and set(o.get("rig_instances", {})) == set(m.insts) and set(o.get("rig_cameras", {})) == set(m.rcs), "rigs in the file")
        for s, x in [*m.shots.items(), *m.panos.items()]:
            y = o["shots"][s] if s in m.shots else o["pano_shots"][s]
            R, tr = m.pose(x)
            check(y["camera"] == x.cam and near(rodrigues(y["rotation"]), R, 1e-8) and near(y["translation"], tr, 1e-8), "shot", s, y)
            for k, f in (("gps_position", "gps_position"), ("gps_accuracy", "gps_dop"), ("orientation", "orientation"), ("capture_time", "capture_time"),
                         ("gravity_down", "gravity_down"), ("sequence_key", "skey")):
                check((k in x.meta) == (f in y), f, "of", s, y)
                if k in x.meta:
                    check(y[f] == x.meta[k] if k == "sequence_key" else near(y[f], x.meta[k]), f, y[f], x.meta[k])
            comp = {k[8:]: x.meta[k] for k in ("compass_angle", "compass_accuracy") if k in x.meta}
            check(y.get("compass", {}) == comp, "compass", y.get("compass"), comp)
        for p, (xyz, color) in m.points.items():
            y = o["points"][p]
            check(near(y["coordinates"], xyz, 1e-12) and near(y["color"], color), "point", p, y)
        for n, p in m.insts.items():
            y = o["rig_instances"][n]
            check(near(rodrigues(y["rotation"]), p[0], 1e-8) and near(y["translation"], p[1], 1e-8), "rig instance", n)
            check(y["rig_camera_ids"] == {s: x.rc for s, x in m.members(n).items()}, "rig cameras of instance", n, y)
        for n, p in m.rcs.items():
            y = o["rig_cameras"][n]
            check(near(rodrigues(y["rotation"]), p[0], 1e-8) and near(y["translation"], p[1], 1e-8), "rig camera", n)
        ref = o["reference_lla"]
        check(near([ref["latitude"], ref["longitude"], ref["altitude"]], m.ref), "reference", ref)
        rich = rich or (m.points and any(len(m.members(n)) > 1 for n in m.insts) and m.panos)
    again = [io.reconstruction_from_json(obj[0])] if c["single"] else io.reconstructions_from_json(io.json_load(stdio.StringIO(text)))
    for r, m in zip(again, models):
        maps.compare(r, kept(m))
    twice = io.reconstructions_from_json(json.loads(io.json_dumps(io.reconstructions_to_json(again))))
    for r, m in zip(twice, models):
        maps.compare(r, kept(m))
    t.nontrivial(rich)


# ---- ground control points


def utm(lat, lon, zone, south):
    """Transverse Mercator by Krueger's series, accurate to a tenth of a millimetre."""
    a, f = 6378137.0, 1 / 298.257223563
    n = f / (2 - f)
    A = a / (1 + n) * (1 + n**2 / 4 + n**4 / 64)
    al = [n / 2 - 2 / 3 * n**2 + 5 / 16 * n**3, 13 / 48 * n**2 - 3 / 5 * n**3, 61 / 240 * n**3]
    la, lo = math.radians(lat), math.radians(lon - (zone * 6 - 183))
    e = 2 * math.sqrt(n) / (1 + n)
    tt = math.sinh(math.atanh(math.sin(la)) - e * math.atanh(e * math.sin(la)))
    xi, eta = math.atan2(tt, math.cos(lo)), math.atanh(math.sin(lo) / math.sqrt(1 + tt * tt))
    E = eta + sum(al[j] * math.cos(2 * (j + 1) * xi) * math.sinh(2 * (j + 1) * eta) for j in range(3))
    N = xi + sum(al[j] * math.sin(2 * (j + 1) * xi) * math.cosh(2 * (j + 1) * eta) for j in range(3))
    return 500000 + 0.9996 * A * E, (10000000 if south else 0) + 0.9996 * A * N


IMAGES = [("01.jpg", 4000, 3000), ("é_02.JPG", 3000, 4000), ("p/3.png", 640, 640), ("4", 1, 7), ("missing.jpg", 0, 0)]


@CHECK.sub(
    "gcp_list",
    st.fixed_dictionaries({
        "system": st.sampled_from(["WGS84", "utm", "UTM", "utm plain", "proj", "longlat", "epsg", "mercator", "unknown"]), "zone": st.integers(1, 60), "south": st.booleans(),
        "points": st.lists(st.tuples(grid(1, 79), ugrid(2.9), st.one_of(st.none(), ugrid(4000))), min_size=1, max_size=5),
        "obs": st.lists(st.tuples(st.integers(0, 4), st.integers(0, 4), grid(0, 4000), grid(0, 3000), st.sampled_from(["", "", "\n", "# comment\n", "  \n"])), max_size=14),
        "sep": st.sampled_from([" ", "  ", "\t"]), "end": st.sampled_from(["\n", "", "\r\n"])}),
    quick=700, rule="a point with several observations",
)
def gcp_list(c, t):
    """Control points of gcp_list.txt."""
    zone, south = c["zone"], c["south"]
    if c["system"] == "utm plain":
        south = False
    pts = []
    for lat, dlon, alt in c["points"]:
        lat, lon = (-lat if south else lat), zone * 6 - 183 + dlon
        if c["system"] in ("WGS84", "longlat", "unknown"):
            x, y = lon, lat
        elif c["system"] == "mercator":
            x, y = math.radians(lon) * 6378137, math.asinh(math.tan(math.radians(lat))) * 6378137
        else:
            x, y = utm(lat, lon, zone, south)
        pts.append((lat, lon, alt, "%.11f" % x, "%.11f" % y, "NaN" if alt is None else "%.6f" % alt))
    head = {
        "WGS84": "WGS84", "utm": f"WGS84 UTM {zone}{'S' if south else 'N'}", "UTM": f"wgs84 utm {zone}{'s' if south else 'n'}", "utm plain": f"WGS84 UTM {zone}",
        "proj": f"+proj=utm +zone={zone} +{'south' if south else 'north'} +ellps=WGS84 +datum=WGS84 +units=m +no_defs",
        "longlat": "+proj=longlat +datum=WGS84 +no_defs", "epsg": f"EPSG:{(32700 if south else 32600) + zone}", "mercator": "epsg:3857", "unknown": "MARS84",
    }[c["system"]]
    lines = ["# header\n"] if len(c["obs"]) % 2 else []
    lines.append(head + "\n")
    want = {}
    for i, (p, im, px, py, extra) in enumerate(c["obs"]):
        if extra:
            lines.append(extra)
        lat, lon, alt, x, y, z = pts[p % len(pts)]
        name, w, h = IMAGES[im]
        lines.append(c["sep"].join([x, y, z, "%.5f" % px, "%.5f" % py, name]) + (c["end"] if i == len(c["obs"]) - 1 else "\n"))
        if name != "missing.jpg":
            s = max(w, h)
            want.setdefault((x, y, z), (lat, lon, alt, []))[3].append((name, (px + 0.5 - w / 2) / s, (py + 0.5 - h / 2) / s))
    exifs = {n: {"width": w, "height": h} for n, w, h in IMAGES if w}
    text = "".join(lines)
    if c["system"] == "unknown":
        check(maps.raises(io.read_gcp_list, stdio.StringIO(text), exifs), "an unknown coordinate system was accepted")
        return
    got = io.read_gcp_list(stdio.StringIO(text), exifs)
    check(len(got) == len(want), len(got), "points instead of", len(want), text)
    check(len({p.id for p in got}) == len(got), "names of points are not unique")
    for p, (lat, lon, alt, obs) in zip(got, want.values()):
        check(abs(p.lla["latitude"] - lat) < 1e-6 and abs(p.lla["longitude"] - lon) < 1e-6, "position", dict(p.lla), "instead of", lat, lon)
        check(p.has_altitude == (alt is not None) and (alt is None or abs(p.lla["altitude"] - alt) < 1e-5), "altitude", dict(p.lla), alt)
        have = [(o.shot_id, *o.projection) for o in p.observations]
        check([o[0] for o in have] == [o[0] for o in obs] and near([o[1:] for o in have], [o[1:] for o in obs], 1e-6), "observations", have, "instead of", obs)
    t.nontrivial(any(len(x[3]) > 1 for x in want.values()))
    t.label(c["system"])


@CHECK.sub(
    "gcp_json",
    st.lists(st.fixed_dictionaries({
        "id": st.sampled_from(["a", "gcp é", "unnamed-0", "x y"]), "position": st.one_of(st.none(), st.tuples(ugrid(89), ugrid(179), st.one_of(st.none(), ugrid(5000)))),
        "obs": st.lists(st.tuples(st.sampled_from([i[0] for i in IMAGES]), ugrid(0.6), ugrid(0.6)), max_size=5)}), max_size=5),
    quick=500, rule="points with and without altitude",
)
def gcp_json(c, t):
    """Control points of ground_control_points.json, read and written."""
    def as_json(p):
        o = {"id": p["id"], "observations": [{"shot_id": s, "projection": [x, y]} for s, x, y in p["obs"]]}
        if p["position"]:
            la, lo, al = p["position"]
            o["position"] = {"latitude": la, "longitude": lo}
            if al is not None:
                o["position"]["altitude"] = al
        return o
    obj = {"points": [as_json(p) for p in c]}
    got = io.read_ground_control_points(stdio.StringIO(json.dumps(obj)))
    for k in range(2):
        check([p.id for p in got] == [p["id"] for p in c], "names")
        for g, p in zip(got, c):
            check([(o.shot_id, *o.projection) for o in g.observations] == [tuple(o) for o in p["obs"]], "observations")
            if p["position"]:
                la, lo, al = p["position"]
                check(g.lla["latitude"] == la and g.lla["longitude"] == lo and g.has_altitude == (al is not None) and (al is None or g.lla["altitude"] == al), "position", dict(g.lla))
            else:
                check(not dict(g.lla), "position", dict(g.lla))
        out = stdio.StringIO()
        io.write_ground_control_points(got, out)
        check(json.loads(out.getvalue()) == obj, "file", out.getvalue(), obj)
        out.seek(0)
        got = io.read_ground_control_points(out)
    t.nontrivial({bool(p["position"] and p["position"][2] is not None) for p in c} == {True, False})


# ---- PLY


def parse_ply(text):
    lines = text.split("\n")
    check(lines[0] == "ply" and lines[1] == "format ascii 1.0", "header")
    i, n, props = 2, None, []
    while lines[i] != "end_header":
        w = lines[i].split()
        if w[0] == "element":
            check(w[1] == "vertex" and n is None)
            n = int(w[2])
        elif w[0] == "property":
            check(w[1] in ("float", "uchar"), "type", w[1])
            props.append((w[2], w[1]))
        i += 1
    rows = lines[i + 1:]
    check(rows[-1] == "" and len(rows) == n + 1, "the header says", n, "vertices, there are", len(rows) - 1)
    out = []
    for r in rows[:-1]:
        w = r.split()
        check(len(w) == len(props), len(w), "values for", len(props), "properties")
        v = {}
        for (k, ty), x in zip(props, w):
            v[k] = float(x) if ty == "float" else int(x)
            check(ty == "float" or 0 <= v[k] < 256, "value", k, v[k])
        out.append(v)
    return [p[0] for p in props], out


@CHECK.sub(
    "ply",
    st.fixed_dictionaries({"ops": maps.histories(maps.ops_strategy(with_transfers=False), (1, 6, 14)), "no_cameras": st.booleans(), "no_points": st.booleans(),
                           "views": st.booleans(), "tracks": st.booleans()}),
    quick=400, rule="points and cameras",
)
def ply(c, t):
    """A reconstruction as a PLY file."""
    r, m = types.Reconstruction(), maps.Model()
    for op in maps.RICH + c["ops"]:
        maps.apply(op, r, m)
    tm = r.map.to_tracks_manager()
    for p in m.points:  # a track of every point
        tm.add_observation("elsewhere", p, pymap.Observation(0, 0, 1, 0, 0, 0, 50 + int(p)))
    n_obs = {p: sum(q == p for _, q in m.obs) for p in m.points}
    text = io.reconstruction_to_ply(r, tm if c["tracks"] else None, c["no_cameras"], c["no_points"], c["views"])
    props, rows = parse_ply(text)
    check(props == ["x", "y", "z", "red", "green", "blue"] + ["views"] * c["views"], "properties", props)
    pts = {} if c["no_points"] else m.points
    key = lambda v: (v["x"], v["y"], v["z"], v["red"], v["green"], v["blue"], v.get("views"))
    want = sorted((*map(float, xyz), *color, (n_obs[p] or (1 if c["tracks"] else 0)) if c["views"] else None) for p, (xyz, color) in pts.items())
    k = len(pts)
    check(sorted(map(key, rows[:k])) == want, "points", sorted(map(key, rows[:k])), want)
    rest = rows[k:]
    shots = {} if c["no_cameras"] else m.shots
    check(not shots or len(rest) % len(shots) == 0, "vertices of cameras")
    if shots:
        per = len(rest) // len(shots)
        check(per >= 6, "axes of cameras")
        for s, x in shots.items():
            R, tr = m.pose(x)
            o = -R.T @ tr
            for axis in range(3):  # a line from the camera along each axis, red, green and blue
                mine = [v for v in rest if [v["red"], v["green"], v["blue"]] == [255 * (i == axis) for i in range(3)]]
                check(len(mine) == len(rest) // 3)
                d = np.array([[v["x"], v["y"], v["z"]] for v in mine]) - o
                along = d @ R[axis]
                off = np.linalg.norm(d - along[:, None] * R[axis], axis=1)
                on = (off < 1e-6) & (along > -1e-6)
                check(on.sum() >= len(mine) // len(shots) and along[on].max() > 1, "axis", axis, "of", s)
    check(c["no_cameras"] == (not rest) or not m.shots)
    t.nontrivial(pts and shots)


@CHECK.sub("point_cloud", st.fixed_dictionaries({"seed": seeds, "n": st.sampled_from([0, 1, 2, 17]), "scale": st.sampled_from([0.01, 1.0, 1000.0])}), quick=200, rule="several points")
def point_cloud(c, t):
    """Dense point clouds as PLY files."""
    g = rng(c["seed"])
    n = c["n"]
    pts, nrm = g.normal(size=(n, 3)).astype(np.float32) * np.float32(c["scale"]), g.normal(size=(n, 3)).astype(np.float32)
    col, lab = g.integers(0, 256, (n, 3)).astype(np.uint8), g.integers(0, 256, n).astype(np.uint8)
    f = stdio.StringIO()
    io.point_cloud_to_ply(pts, nrm, col, lab, f)
    props, rows = parse_ply(f.getvalue())
    check(props == ["x", "y", "z", "nx", "ny", "nz", "red", "green", "blue", "class"] and len(rows) == n, "header", props)
    f.seek(0)
    a, b, d, e = io.point_cloud_from_ply(f)
    check(a.shape == (n, 3) and b.shape == (n, 3) and (d == col).all() and (e == lab).all(), "colors and labels")
    check(n == 0 or (abs(a - pts).max() < 1e-4 * (1 + c["scale"] / 100) and abs(b - nrm).max() < 1e-3), "points and normals")
    for v, c_, l in zip(rows, col, lab):
        check((v["red"], v["green"], v["blue"], v["class"]) == (*c_, l), "columns")
    t.nontrivial(n > 1)


# ---- images


@CHECK.sub(
    "images",
    st.fixed_dictionaries({"seed": seeds, "size": st.tuples(st.integers(1, 40), st.integers(1, 40)), "channels": st.sampled_from([1, 3, 4]), "deep": st.booleans(),
                           "read": st.sampled_from(["color", "gray", "unchanged", "anydepth"]), "orientation": st.integers(1, 8), "frozen": st.booleans(), "fs": st.booleans()}),
    quick=400, rule="a color image",
)
def images(c, t):
    """Images keep their channels, are written as given and never rotated."""
    g = rng(c["seed"])
    h, w = c["size"]
    ch, deep = c["channels"], c["deep"]
    top, dt = (65536, np.uint16) if deep else (256, np.uint8)
    im = g.integers(0, top, (h, w) if ch == 1 else (h, w, ch)).astype(dt)
    before = im.copy()
    im.flags.writeable = not c["frozen"]
    d = t.tmpdir()
    path = os.path.join(d, "image é.png")
    fs = io.IoFilesystemDefault() if c["fs"] else io
    fs.imwrite(path, im)
    check((im == before).all(), "writing an image changed it")
    check(tuple(fs.image_size(path)) == (h, w), "size")
    if not deep:
        check((np.asarray(Image.open(path)) == before).all(), "channels of the file")
    else:  # an independent reader of deep images: raw PNG through OpenCV, which is BGR
        raw = cv2.imread(path, cv2.IMREAD_UNCHANGED)
        check((raw == (before if ch == 1 else before[:, :, [2, 1, 0, 3][:ch]])).all(), "channels of the file")
    got = fs.imread(path, grayscale=c["read"] == "gray", unchanged=c["read"] == "unchanged", anydepth=c["read"] == "anydepth")
    if c["read"] == "unchanged":
        check(got.dtype == dt and got.shape == before.shape and (got == before).all(), "unchanged image")
    elif c["read"] == "gray":
        check(got.shape == (h, w) and got.dtype == np.uint8, "shape", got.shape)
        lum = before if ch == 1 else before[:, :, :3] @ [0.299, 0.587, 0.114]
        check(abs(got - (lum / 256 if deep else lum)).max() <= 2, "gray levels")
    else:
        keep = deep and c["read"] == "anydepth"
        check(got.shape == (h, w, 3) and got.dtype == (np.uint16 if keep else np.uint8), "shape", got.shape, got.dtype)
        rgb = np.repeat(before[:, :, None], 3, 2) if ch == 1 else before[:, :, :3]
        if ch != 4 or not deep:
            check(abs(got.astype(float) - (rgb / 256.0 if deep and not keep else rgb)).max() <= 1, "colors")
    # files with an orientation are not rotated, other formats
    flat = np.full((h, w, 3), 90, np.uint8)
    flat[: (h + 1) // 2, :, 0] = 200
    jpg = os.path.join(d, "o.jpg")
    ex = Image.Exif()
    ex[0x0112] = c["orientation"]
    Image.fromarray(flat).save(jpg, exif=ex, quality=95)
    a = fs.imread(jpg)
    check(a.shape == (h, w, 3), "rotated by its orientation", a.shape, (h, w))
    ref = np.asarray(Image.open(jpg)).astype(int)
    check(abs(a - ref).max() <= 6, "pixels of an oriented image")
    check(tuple(fs.image_size(jpg)) == (h, w), "size of an oriented image")
    bad = os.path.join(d, "bad.jpg")
    open(bad, "wb").write(b"not an image")
    check(maps.raises(fs.imread, bad) and maps.raises(fs.imread, os.path.join(d, "none.png")), "a broken image was read")
    t.nontrivial(ch > 1)
    t.label(c["read"], "deep" if deep else "8 bits")


# ---- the file system


names = st.sampled_from(["a", "b", "d", "d/a", "d/e/a", "é", "l"])


@CHECK.sub(
    "filesystem",
    st.lists(st.one_of(
        st.tuples(st.sampled_from(["mkdir", "rm", "rm", "rm"]), names), st.tuples(st.sampled_from(["wt", "wb", "at"]), names, st.sampled_from(["", "x", "línea\n", "z\n\nw"])),
        st.tuples(st.just("symlink"), names, names)), max_size=25),
    quick=400, rule="something was removed",
)
def filesystem(c, t):
    """Files, folders and links: a dictionary is the reference."""
    d = t.tmpdir()
    fs = io.IoFilesystemDefault()
    tree = {"": None}  # path -> None for a folder, str for a file, ("->", target) for a link
    removed = False

    def parent(p):
        return os.path.dirname(p)

    def resolve(p, depth=0):
        """Path in the tree after following links, or None."""
        if depth > 8:
            return None
        parts, cur = (p.split("/") if p else []), ""
        for x in parts:
            cur = f"{cur}/{x}" if cur else x
            if isinstance(tree.get(cur), tuple):
                cur = resolve(tree[cur][1], depth + 1)
                if cur is None:
                    return None
        return cur if cur in tree else None

    def real(p):
        """Path with links of its folder resolved, or None when there is no such folder."""
        q = resolve(parent(p))
        if q is None or tree[q] is not None:
            return None
        return f"{q}/{os.path.basename(p)}" if q else os.path.basename(p)

    for op in c:
        kind, p = op[0], op[1]
        path = os.path.join(d, p)
        rp = real(p)
        if kind == "mkdir":
            # folders in between too; not over files
            cur, ok = "", True
            for x in p.split("/"):
                cur = f"{cur}/{x}" if cur else x
                if isinstance(tree.get(cur), tuple):
                    q = resolve(cur)
                    ok = ok and q is not None
                    if not ok:
                        break
                    cur = q
                if isinstance(tree.get(cur), str):
                    ok = False
                if not ok:
                    break
                tree.setdefault(cur, None)
            (fs.mkdir_p(path) if ok else check(maps.raises(fs.mkdir_p, path), "folder over a file"))
        elif kind == "rm":
            fs.rm_if_exist(path)
            if rp in tree:
                gone = tree[rp]
                if gone is None:
                    for q in [q for q in tree if q.startswith(rp + "/")]:
                        del tree[q]
                del tree[rp]
                removed = True
        elif kind == "symlink":
            if rp is None or rp in tree:
                check(maps.raises(fs.symlink, os.path.join(d, op[2]), path), "link over something")
            else:
                fs.symlink(os.path.join(d, op[2]), path)
                tree[rp] = ("->", op[2])
        else:
            q = resolve(p) if rp in tree else rp
            dangling = rp in tree and isinstance(tree[rp], tuple) and q is None
            if dangling:
                continue
            if q is None or (q in tree and tree[q] is None):
                check(maps.raises(lambda: {"wt": fs.open_wt, "wb": fs.open_wb, "at": fs.open_at}[kind](path)), "a file was opened")
                continue
            if kind == "wb":
                with fs.open_wb(path) as f:
                    f.write(op[2].encode())
            else:
                with (fs.open_wt if kind == "wt" else fs.open_at)(path) as f:
                    f.write(op[2])
            tree[q] = op[2] if kind != "at" else tree.get(q, "") + op[2]
        for p in ["a", "b", "d", "d/a", "d/e", "d/e/a", "é", "l"]:
            path, q = os.path.join(d, p), resolve(p)
            check(fs.exists(path) == (q is not None), "exists", p, op)
            check(fs.isdir(path) == (q is not None and tree[q] is None) and fs.isfile(path) == (q is not None and tree[q] is not None), "kind of", p, op)
            if q is not None and tree[q] is None:
                check(sorted(fs.ls(path)) == sorted(x[len(q) + 1:] for x in tree if x.startswith(q + "/") and "/" not in x[len(q) + 1:]), "contents of", p)
            elif q is not None:
                with fs.open_rt(path) as f:
                    check(f.read() == tree[q], "text of", p)
                with fs.open_rb(path) as f:
                    check(f.read() == tree[q].encode(), "bytes of", p)
    t.nontrivial(removed)
