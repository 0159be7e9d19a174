"""C26: the mesh of an image is a surface of its points that covers its view."""

import json
import math

import cams
import numpy as np
from c21_exports import PLAIN, World
from gen import rng, rodrigues, seeds, st
from harness import Check, Skip, check
from opensfm import mesh, pygeometry, pymap, types
from opensfm.actions import mesh as mesh_action

CHECK = Check("C26")
CHECK.assumptions = ["camera models (C02), poses (C03), tracks and maps (C09, C10), files (C11)"]
FLAT = ["perspective", "brown", "radial", "simple_radial"]
ROUND = ["fisheye", "fisheye_opencv", "fisheye62", "fisheye624", "dual"]


class Scene:
    def __init__(self, g, case, reach):
        cam = case["camera"]
        self.cam = q = cams.make(cam)
        self.r = r = types.Reconstruction()
        r.add_camera(q)
        self.R, self.o = rodrigues(g.normal(0, 1.5, 3)), g.normal(0, 1, 3) * case["away"]
        self.shot = r.create_shot("shot", q.id, pygeometry.Pose(self.R, -self.R @ self.o))
        r.create_shot("other", q.id, pygeometry.Pose())
        m = self.tracks = pymap.TracksManager()
        m.add_observation("elsewhere", "x", pymap.Observation(0, 0, 1, 0, 0, 0, 0))
        r.create_point("unseen", g.normal(0, 1, 3))
        self.seen = {}  # track: position in the frame of the camera
        n = case["points"]
        for k in range(n):
            a = g.uniform(0, 2 * math.pi)
            p = cams.direction(cam, 0.03 + reach * math.sqrt(g.random()), a) if cam["type"] != "spherical" else g.normal(0, 1, 3)
            p = p / np.linalg.norm(p) * g.uniform(1.0, 20.0) * case["scale"]
            if case["same"] and k and g.random() < 0.3 and self.seen:
                p = self.seen[list(self.seen)[-1]] * 2.0  # behind another point
            t = f"t{k}"
            if g.random() < 0.85:
                m.add_observation("shot", t, pymap.Observation(0.0, 0.0, 1.0, 0, 0, 0, k))
                watched = True
            else:
                m.add_observation("elsewhere", t, pymap.Observation(0.0, 0.0, 1.0, 0, 0, 0, k))
                watched = False
            if g.random() < 0.85:
                r.create_point(t, self.R.T @ p + self.o)
                if watched:
                    self.seen[t] = self.R @ (np.array(r.points[t].coordinates) - self.o)
        if "shot" not in m.get_shot_ids():
            m.add_observation("shot", "lonely", pymap.Observation(0.0, 0.0, 1.0, 0, 0, 0, n))

    def local(self, v):
        return (np.asarray(v, float) - self.o) @ self.R.T

    def matched(self, vertices, start, want):
        """The vertices from `start` on are the points of `want`: gives which, in order."""
        check(len(vertices) == start + len(want), "number of vertices", len(vertices), start, len(want))
        left = list(want)
        out = []
        for v in vertices[start:]:
            hit = [k for k in left if np.array_equal(np.asarray(v, float), np.asarray(self.r.points[k].coordinates))]
            check(hit, "a vertex that is no point of the image", v)
            out.append(hit[0])
            left.remove(hit[0])
        return out


def alike(a, b):
    """Equal, but for the rounding of poses read and written again."""
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(alike(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-7 * (1 + abs(b))
    return a == b


def strangers(s):
    for n in ("elsewhere", "other", "nobody"):  # not reconstructed, without tracks, unknown
        got = mesh.triangle_mesh(n, s.r, s.tracks)
        check(tuple(map(list, got)) == ([], []), "mesh of an image that has none", n, got)


def valid(faces, n):
    check(len(faces) > 0, "no faces")
    for f in faces:
        check(len(f) == 3 and len(set(f)) == 3 and all(isinstance(i, int) and 0 <= i < n for i in f), "face", f, n)
    check(len({tuple(sorted(f)) for f in faces}) == len(faces), "the same face twice")


def strategy(kinds):
    return st.fixed_dictionaries({
        "seed": seeds, "camera": cams.cameras(types=tuple(kinds), amp=0.15), "points": st.sampled_from([0, 1, 2, 5, 8, 20, 20, 60]), "away": st.sampled_from([0.0, 1.0, 100.0]), "scale": st.sampled_from([0.1, 1.0, 30.0]),
        "same": st.booleans(), "size": st.integers(0, 10),
    })


@CHECK.sub("flat", strategy(FLAT), 500, rule="at least three points in the mesh")
def flat(case, t):
    g = rng(case["seed"])
    cam = case["camera"]
    w, h = cam["width"], cam["height"]
    s = Scene(g, case, min(0.9, cams.MAX_R[cam["type"]] * 0.9))
    dx, dy = w / 2 / max(w, h), h / 2 / max(w, h)
    inside, pixels = [], []
    for k, p in s.seen.items():
        u = cams.project(cam, p)
        edge = min(dx - abs(u[0]), dy - abs(u[1]))
        if abs(edge) < 1e-7:
            raise Skip("point on the border")
        if edge > 0:
            inside.append(k)
            pixels.append(u)
    strangers(s)
    vertices, faces = mesh.triangle_mesh("shot", s.r, s.tracks)
    order = s.matched(vertices, 4, inside)
    valid(faces, len(vertices))
    P = [np.array(c) for c in ([-dx, -dy], [-dx, dy], [dx, dy], [dx, -dy])] + [pixels[inside.index(k)] for k in order]
    P = np.array(P)
    # the faces tile the picture
    area = 0.0
    for f in faces:
        a, b, c = P[list(f)]
        d = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
        area += abs(d) / 2
        # Delaunay: no point inside of the circle of a face
        if abs(d) > 1e-9:
            A = 2 * np.array([b - a, c - a])
            o = np.linalg.solve(A, [b @ b - a @ a, c @ c - a @ a])
            rad = np.linalg.norm(a - o)
            if rad < 1e3:
                check(np.all(np.linalg.norm(P - o, axis=1) > rad - 1e-6 * (1 + rad)), "a point inside of the circle of a face", f)
    check(abs(area - 4 * dx * dy) < 1e-7, "area of the faces", area, 4 * dx * dy)
    # the corners are on the rays of the corners of the picture, at depths like those next to them
    f, ar, pp = cam["focal"], (cam["ar"] if cam["type"] in cams.AFFINE else 1.0), (cam["pp"] if cam["type"] in cams.AFFINE else [0, 0])
    for i in range(4):
        v = s.local(vertices[i])
        check(v[2] > 0, "corner behind the camera", v)
        u = np.array([f * v[0] / v[2] + pp[0], f * ar * v[1] / v[2] + pp[1]])
        check(np.abs(u - P[i]).max() < 1e-6 * (1 + case["away"] / v[2]), "corner off its ray", u, P[i])
        near = [s.seen[order[j - 4]][2] for fc in faces if i in fc for j in fc if j >= 4]
        want = (sum(near) / len(near)) if near else 50.0
        check(abs(v[2] - want) < 1e-6 * (1 + want + case["away"]), "depth of a corner", v[2], want)
    if len(inside) >= 3:
        t.nontrivial()
    t.label(cam["type"])


def covers(bearings, faces, directions, info):
    B = np.array([np.array(bearings)[list(f)] for f in faces])  # face, corner, xyz
    det = np.linalg.det(B)
    B = B[np.abs(det) > 1e-10]
    for d in directions:
        lam = np.linalg.solve(np.transpose(B, (0, 2, 1)), np.tile(d, (len(B), 1))[..., None])[..., 0]
        check(np.any(np.all(lam > -1e-6 * np.abs(lam).max(1, keepdims=True), axis=1)), "a direction of view without a face", info, d)


def hull(bearings, faces, skip):
    """Every face is on the hull of the bearings, and every distinct point is in some face."""
    B = np.array(bearings)
    used = {i for f in faces for i in f}
    for f in faces:
        a, b, c = B[list(f)]
        n = np.cross(b - a, c - a)
        if np.linalg.norm(n) < 1e-9:
            continue
        n /= np.linalg.norm(n)
        e = (B - a) @ n
        check(e.max() < 1e-7 or e.min() > -1e-7, "a face inside of the hull", f, e.min(), e.max())
    for i in range(skip, len(B)):
        if i not in used:
            d = np.linalg.norm(B - B[i], axis=1)
            check(np.sum(d < 1e-4) > 1, "a point without a face", i)


@CHECK.sub("round", strategy(ROUND), 400, rule="at least three points in the mesh")
def round_(case, t):
    g = rng(case["seed"])
    s = Scene(g, case, 1.5 if case["camera"]["type"] != "dual" else 0.9)
    strangers(s)
    vertices, faces = mesh.triangle_mesh("shot", s.r, s.tracks)
    n = len(vertices) - len(s.seen)
    order = s.matched(vertices, n, list(s.seen))
    valid(faces, len(vertices))
    L = [s.local(v) for v in vertices]
    tol = 1e-7 * (1 + case["away"])
    rim = [k for k in range(n) if abs(L[k][2]) < tol]
    check(len(rim) >= 8 and len(rim) == n - 1, "rim of the view", n, len(rim))
    front = next(k for k in range(n) if k not in rim)
    check(abs(np.linalg.norm(L[front]) - 30) < tol and np.abs(L[front][:2]).max() < tol and L[front][2] > 0, "vertex ahead", L[front])
    for k in rim:
        check(abs(np.linalg.norm(L[k]) - 30) < tol, "rim", L[k])
    angles = np.sort([math.atan2(L[k][1], L[k][0]) for k in rim])
    check(np.diff(np.append(angles, angles[0] + 2 * math.pi)).max() < 0.5, "gap in the rim", angles)
    check(not any(all(i in rim for i in f) for f in faces), "face of the rim alone")
    bearings = [0.3 * v / np.linalg.norm(v) if k == front else v / np.linalg.norm(v) for k, v in enumerate(L)]
    hull(bearings, faces, n)
    dirs = []
    for _ in range(12):
        a, z = g.uniform(0, 2 * math.pi), g.uniform(0.05, 1)
        dirs.append(np.array([math.sqrt(1 - z * z) * math.cos(a), math.sqrt(1 - z * z) * math.sin(a), z]))
    covers(bearings, faces, dirs, case["camera"]["type"])
    if len(s.seen) >= 3:
        t.nontrivial()
    t.label(case["camera"]["type"])


@CHECK.sub("sphere", strategy(["spherical"]), 300, rule="at least three points in the mesh")
def sphere(case, t):
    g = rng(case["seed"])
    s = Scene(g, case, 1.0)
    strangers(s)
    vertices, faces = mesh.triangle_mesh("shot", s.r, s.tracks)
    n = len(vertices) - len(s.seen)
    s.matched(vertices, n, list(s.seen))
    valid(faces, len(vertices))
    L = [s.local(v) for v in vertices]
    lengths = [np.linalg.norm(v) for v in L[:n]]
    check(n >= 4 and max(lengths) - min(lengths) < 1e-7 * (1 + case["away"]) and min(lengths) > 0.01, "added vertices", lengths)
    bearings = [v if k < n else v / np.linalg.norm(v) for k, v in enumerate(L)]
    hull(bearings, faces, n)
    edges = {}
    for f in faces:
        for i in range(3):
            e = tuple(sorted((f[i], f[(i + 1) % 3])))
            edges[e] = edges.get(e, 0) + 1
    check(set(edges.values()) == {2}, "the surface is not closed", {k: v for k, v in edges.items() if v != 2})
    dirs = g.normal(0, 1, (12, 3))
    covers(bearings, faces, [d / np.linalg.norm(d) for d in dirs], "spherical")
    if len(s.seen) >= 3:
        t.nontrivial()


ACTION = st.fixed_dictionaries({
    "seed": seeds, "images": st.integers(2, 6), "points": st.integers(5, 60), "recs": st.sampled_from([1, 1, 2]), "loose": st.booleans(), "rig": st.booleans(),
    "cameras": st.lists(cams.cameras(types=("perspective", "brown", "fisheye", "fisheye_opencv", "spherical"), amp=0.05), min_size=1, max_size=2), "lonely": st.booleans(), "size": st.integers(0, 10),
})


@CHECK.sub("action", ACTION, 60, thorough=1000, rule="at least two images with a mesh of points")
def action(case, t):
    g = rng(case["seed"])
    c = {"images": case["images"], "points": case["points"], "reconstructions": case["recs"], "loose": case["loose"]}
    w = World(t.tmpdir() + "/data", g, c, case["cameras"], rig=case["rig"] and case["recs"] == 1)
    if case["lonely"]:  # an image of the reconstruction without tracks
        w.recs[0].create_shot("lonely.jpg", list(w.cameras)[0], pygeometry.Pose())
        w.data.save_reconstruction(w.recs)
    before = open(w.root + "/reconstruction.json").read()
    mesh_action.run_dataset(w.data)
    check(open(w.root + "/reconstruction.json").read() == before, "the reconstruction was changed")
    got = json.load(open(w.root + "/reconstruction.meshed.json"))
    base = json.loads(before)
    check(len(got) == len(base), "reconstructions", len(got))
    source, tracks = w.data.load_reconstruction(), w.data.load_tracks_manager()  # in the order in which they are read
    known = set(w.tracks.get_shot_ids())
    rich = 0
    loaded = w.data.load_reconstruction("reconstruction.meshed.json")
    for j, (a, b) in enumerate(zip(got, base)):
        for k in set(a) | set(b):
            check(k == "shots" or alike(a.get(k), b.get(k)), "the rest of the reconstruction", k, a.get(k), b.get(k))
        check(set(a["shots"]) == set(b["shots"]), "images", sorted(a["shots"]))
        for n in a["shots"]:
            x, y = dict(a["shots"][n]), dict(b["shots"][n])
            for d in (x, y):
                for k in ("vertices", "faces"):
                    d.pop(k, None)
            check(alike(x, y), "an image changed", n, x, y)
            vertices, faces = a["shots"][n].get("vertices", []), a["shots"][n].get("faces", [])
            if n not in known:
                check(len(vertices) == 0 and len(faces) == 0, "mesh of an image without tracks", n)
                continue
            V, F = mesh.triangle_mesh(n, source[j], tracks)
            check(len(vertices) == len(V) and np.abs(np.array(vertices) - np.array([list(v) for v in V])).max() < 1e-6, "vertices written", n)
            check([[int(i) for i in f] for f in faces] == F or {tuple(sorted(int(i) for i in f)) for f in faces} == {tuple(sorted(f)) for f in F}, "faces written", n)
            m = loaded[j].shots[n].mesh
            check(np.array_equal(np.asarray(m.vertices), np.array(vertices)) and np.array_equal(np.asarray(m.faces), np.array(faces)), "mesh read again", n)
            here = {tuple(p["coordinates"]) for p in b["points"].values()}
            rich += sum(tuple(v) in here for v in vertices) >= 3
    if rich >= 2:
        t.nontrivial()
    empty = mesh.triangle_mesh("nobody", w.recs[0], w.tracks)
    check(empty == ([], []), "mesh of an unknown image", empty)
