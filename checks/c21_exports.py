"""C21: what is exported to other programs describes the same scene."""

import json
import math
import os
import runpy
import sqlite3
import struct
import sys

import cams
import cv2
import numpy as np
import pyproj
import scenes
from c11_files import parse_ply
from c19_undistort import picture
from gen import grid, rng, rodrigues, rot_angle, seeds, st
from harness import Check, Skip, check
from opensfm import dataset, features, geo, io, pygeometry, pymap, types, undistort
from opensfm.actions import export_bundler, export_colmap, export_geocoords, export_openmvs, export_ply, export_pmvs, export_visualsfm

CHECK = Check("C21")
CHECK.assumptions = ["camera models (C02), poses (C03), files (C11), undistortion (C19), geodesy (C01)"]
SIZES = [(640, 480), (480, 640), (400, 400), (800, 300)]
PLAIN = ["perspective", "brown", "fisheye", "fisheye_opencv"]
NAMES = ["a.jpg", "B.JPG", "img_10.png", "img_9.png", "c.c.jpeg", "é1.jpg", "z9.tif", "日本.jpg"]


def quat(q):
    w, x, y, z = np.asarray(q, float)
    check(abs(np.linalg.norm([w, x, y, z]) - 1) < 1e-5, "quaternion", q)
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)], [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)], [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


class World:
    """A dataset on disk; obs[image, point] = (normalized position, feature id)."""

    def __init__(self, root, g, c, cameras, rig=False):
        self.root, self.g = root, g
        self.names = [NAMES[k] for k in g.permutation(len(NAMES))[: c["images"]]]
        if c.get("spaces"):
            self.names[0] = "with space.jpg"
        os.makedirs(root + "/images")
        for n in self.names:
            open(f"{root}/images/{n}", "wb").close()
        with open(root + "/image_list.txt", "w") as f:
            f.write("".join(f"images/{n}\n" for n in self.names))
        with open(root + "/config.yaml", "w") as f:
            json.dump({"processes": 1, "undistorted_image_format": "png", "feature_process_size": c.get("size", 2048)}, f)
        with open(root + "/reference_lla.json", "w") as f:
            json.dump(scenes.REFERENCE, f)
        self.data = data = dataset.DataSet(root)
        self.cameras = {}
        for j, k in enumerate(cameras):
            q = cams.make(k)
            w, h = SIZES[int(g.integers(len(SIZES)))]
            q.id, q.width, q.height = c["ids"][j] if c.get("ids") else f"v{j} cam {w} {h}", w, h
            self.cameras[q.id] = q
        data.save_camera_models(self.cameras)
        spread = c.get("spread", 1.0)
        self.X = g.uniform(-2, 2, (c["points"], 3)) * spread
        self.rgb = g.integers(0, 256, self.X.shape)
        self.recs = [types.Reconstruction() for _ in range(c.get("reconstructions", 1))]
        self.R, self.o, self.cam, self.rec, self.obs = {}, {}, {}, {}, {}
        ids = list(self.cameras)
        for r in self.recs:
            r.reference = scenes.converter()
            for q in self.cameras.values():
                r.add_camera(q)
            if rig:
                self.rig = [(np.eye(3), np.zeros(3)), (rodrigues([0, 0.2, 0.1]), g.normal(0, 0.3, 3))]
                for j, (A, tr) in enumerate(self.rig):
                    r.add_rig_camera(pymap.RigCamera(pygeometry.Pose(A, tr), f"rc{j}"))
        loose = self.names[-1] if c.get("loose") and len(self.names) > 2 else None  # an image that was not reconstructed
        self.missing = loose
        for k, n in enumerate(self.names):
            self.cam[n] = self.cameras[ids[int(g.integers(len(ids)))]]
            d = g.normal(0, 1, 3)
            d /= np.linalg.norm(d)
            o = d * g.uniform(9, 14) * spread
            R = rodrigues(d * 0) @ scenes.look(-d + g.normal(0, 0.05, 3), rodrigues(g.normal(0, 2, 3))[0])
            if c.get("identity") and k == 0:
                R, o = np.eye(3), np.array([0, 0, -11.0]) * spread
            r = self.recs[k % len(self.recs)]
            if n != loose:
                if rig:
                    if k % 2 == 0:
                        r.add_rig_instance(pymap.RigInstance(f"r{k}")).pose = pygeometry.Pose(R, -R @ o)
                        base = (R, o)
                    else:
                        A, tr = self.rig[1]
                        R0, o0 = base
                        R, o = A @ R0, o0 - R0.T @ A.T @ tr
                    sh = r.create_shot(n, self.cam[n].id, None, f"rc{k % 2}", f"r{k - k % 2}")
                else:
                    sh = r.create_shot(n, self.cam[n].id, pygeometry.Pose(R, -R @ o))
                sh.metadata.orientation.value = 1
                self.rec[n] = k % len(self.recs)
            self.R[n], self.o[n] = R, o
            q = self.cam[n]
            data.save_exif(n, {"camera": q.id, "width": q.width, "height": q.height, "orientation": 1, "gps": {}})
        # observations, features
        self.feats = {}
        m = self.tracks = pymap.TracksManager()
        for n in self.names:
            q = self.cam[n]
            s = max(q.width, q.height)
            P = (self.X - self.o[n]) @ self.R[n].T
            a = np.arctan2(np.hypot(P[:, 0], P[:, 1]), P[:, 2])
            seen = []
            for i in np.nonzero(a < 0.7)[0]:
                p = np.asarray(q.project(P[i]))
                if abs(p[0]) * s < q.width / 2 - 1 and abs(p[1]) * s < q.height / 2 - 1 and g.random() < 0.9:
                    seen.append((int(i), p))
            extra = int(g.integers(0, 6))
            order = g.permutation(len(seen) + extra)
            pts = np.zeros((len(order), 4))
            pts[:, :2] = g.uniform(-0.3, 0.3, (len(order), 2)) * [q.width / s, q.height / s]
            for (i, p), f in zip(seen, order):
                pts[f, :2] = p
                self.obs[n, i] = (p, int(f))
                m.add_observation(n, f"t{i}", pymap.Observation(p[0], p[1], 0.01, *[int(v) for v in self.rgb[i]], int(f)))
            self.feats[n] = pts
            data.save_features(n, features.FeaturesData(pts, np.zeros((len(pts), 4), np.uint8), np.zeros((len(pts), 3), np.uint8), None))
        self.points = []  # (reconstruction, point)
        for j, r in enumerate(self.recs):
            for i in range(len(self.X)):
                if i % len(self.recs) == j or i % 7 == 0:
                    if i % 11 == 5 or not self.seen(j, i):
                        continue  # a track that was not reconstructed
                    r.create_point(f"t{i}", self.X[i]).color = [int(v) for v in self.rgb[i]]
                    self.points.append((j, i))
        data.save_tracks_manager(m)
        data.save_reconstruction(self.recs)

    def pixel(self, n, i, half=0.5):
        """Where point i is in image n, in pixels."""
        q = self.cam[n]
        return self.obs[n, i][0] * max(q.width, q.height) + [q.width / 2 - half, q.height / 2 - half]

    def seen(self, j, i):
        return {n for n in self.names if self.rec.get(n) == j and (n, i) in self.obs}


def radial(theta_d, P):
    r = math.hypot(P[0], P[1])
    return np.array([P[0], P[1]]) * (theta_d / r if r > 1e-12 else 1 / P[2])


def colmap_project(model, p, P):
    """COLMAP's camera models."""
    x, y = P[0] / P[2], P[1] / P[2]
    r2 = x * x + y * y
    th = math.atan2(math.hypot(P[0], P[1]), P[2])
    t2 = th * th
    if model == 3:  # f cx cy k1 k2
        f, cx, cy, k1, k2 = p
        d = 1 + r2 * (k1 + r2 * k2)
        return np.array([f * x * d + cx, f * y * d + cy])
    if model == 6:
        fx, fy, cx, cy, k1, k2, p1, p2, k3, k4, k5, k6 = p
        d = (1 + r2 * (k1 + r2 * (k2 + r2 * k3))) / (1 + r2 * (k4 + r2 * (k5 + r2 * k6)))
        return np.array([fx * (x * d + 2 * p1 * x * y + p2 * (r2 + 2 * x * x)) + cx, fy * (y * d + p1 * (r2 + 2 * y * y) + 2 * p2 * x * y) + cy])
    if model == 9:
        f, cx, cy, k1, k2 = p
        u = radial(th * (1 + t2 * (k1 + t2 * k2)), P)
        return f * u + [cx, cy]
    if model == 5:
        fx, fy, cx, cy, k1, k2, k3, k4 = p
        u = radial(th * (1 + t2 * (k1 + t2 * (k2 + t2 * (k3 + t2 * k4)))), P)
        return u * [fx, fy] + [cx, cy]
    raise ValueError(model)


MODELS = {"RADIAL": (3, 5), "FULL_OPENCV": (6, 12), "RADIAL_FISHEYE": (9, 5), "OPENCV_FISHEYE": (5, 8)}
PARAMS = {k: n for k, n in MODELS.values()}


class Reader:
    def __init__(self, path):
        with open(path, "rb") as f:
            self.b = f.read()
        self.i = 0

    def get(self, fmt):
        v = struct.unpack_from("<" + fmt, self.b, self.i)
        self.i += struct.calcsize("<" + fmt)
        return v if len(v) > 1 else v[0]

    def text(self):
        j = self.b.index(b"\0", self.i)
        s = self.b[self.i : j].decode("utf-8")
        self.i = j + 1
        return s

    def string(self):
        n = self.get("Q")
        s = self.b[self.i : self.i + n]
        self.i += n
        return s.decode("utf-8")

    def end(self, what):
        check(self.i == len(self.b), what, "has", len(self.b) - self.i, "more bytes")


def read_colmap(d, binary):
    cs, ims, pts = {}, {}, {}
    if binary:
        r = Reader(d + "/cameras.bin")
        for _ in range(r.get("Q")):
            k, model, w, h = r.get("iiQQ")
            cs[k] = (model, w, h, r.get(f"{PARAMS[model]}d"))
        r.end("cameras.bin")
        r = Reader(d + "/images.bin")
        for _ in range(r.get("Q")):
            k = r.get("I")
            q = r.get("7d")
            c = r.get("I")
            name = r.text()
            check(k not in ims, "image", k, "is there twice")
            ims[k] = (q[:4], q[4:], c, name, [r.get("ddq") for _ in range(r.get("Q"))])
        r.end("images.bin")
        r = Reader(d + "/points3D.bin")
        for _ in range(r.get("Q")):
            k = r.get("Q")
            xyz, rgb, _ = r.get("3d"), r.get("3B"), r.get("d")
            check(k not in pts, "point", k, "is there twice")
            pts[k] = (xyz, rgb, [r.get("II") for _ in range(r.get("Q"))])
        r.end("points3D.bin")
        return cs, ims, pts
    lines = lambda f: [x.rstrip("\n") for x in open(f"{d}/{f}.txt", encoding="utf-8") if not x.startswith("#")]
    for x in lines("cameras"):
        k, model, w, h, *p = x.split()
        check(len(p) == MODELS[model][1], model, "with", len(p), "parameters")
        cs[int(k)] = (MODELS[model][0], int(w), int(h), [float(v) for v in p])
    x = lines("images")
    for a, b in zip(x[::2], x[1::2]):
        a = a.split(" ", 9)
        v = [float(u) for u in b.split()]
        check(int(a[0]) not in ims, "image", a[0], "is there twice")
        ims[int(a[0])] = ([float(u) for u in a[1:5]], [float(u) for u in a[5:8]], int(a[8]), a[9], [(v[j], v[j + 1], int(v[j + 2])) for j in range(0, len(v), 3)])
    for x in lines("points3D"):
        v = x.split()
        check(int(v[0]) not in pts, "point", v[0], "is there twice")
        pts[int(v[0])] = ([float(u) for u in v[1:4]], [int(u) for u in v[4:7]], [(int(v[j]), int(v[j + 1])) for j in range(8, len(v), 2)])
    return cs, ims, pts


base = {"seed": seeds, "points": st.sampled_from([40, 40, 60, 3]), "images": st.sampled_from([3, 4, 6, 2])}


@CHECK.sub("colmap", st.fixed_dictionaries(dict(base, cameras=st.lists(cams.cameras(types=PLAIN), min_size=1, max_size=3), reconstructions=st.sampled_from([1, 1, 2]), identity=st.booleans(), loose=st.booleans(),
                                              binary=st.booleans(), spaces=st.booleans(), overrides=st.booleans(), wrong=st.sampled_from([0, 0.3]))), quick=300, rule="20 observations were judged")
def colmap(c, t):
    """COLMAP's own projection of the exported points is where the exported key points are."""
    g = rng(c["seed"])
    w = World(t.tmpdir() + "/d", g, c, c["cameras"])
    data = w.data
    if {n for n, _ in w.obs} < set(w.rec):
        raise Skip  # only images with tracks are reconstructed
    if c["overrides"]:
        k = next(iter(w.cameras))
        q = data.load_camera_models()[k]
        q.focal = 0.77
        data.save_camera_models_overrides({k: q})
    given = {}
    for a, n in enumerate(w.names):
        mine = {}
        for b, m in enumerate(w.names):
            if a == b or (a > b and (m, n) in given and g.random() < 0.7):
                continue
            both = [i for i in range(len(w.X)) if (n, i) in w.obs and (m, i) in w.obs]
            pairs = [(w.obs[n, i][1], w.obs[m, i][1]) for i in both]
            pairs = [(x, int(g.integers(len(w.feats[m]))) if g.random() < c["wrong"] else y) for x, y in pairs]
            mine[m] = np.array(pairs, int).reshape(-1, 2)
            given[n, m] = set(pairs)
        data.save_matches(n, mine)
    export_colmap.run_dataset(data, c["binary"])
    d = w.root + "/colmap_export"
    cs, ims, pts = read_colmap(d, c["binary"])
    # the database
    db = sqlite3.connect(d + "/colmap_database.db")
    dcam = {k: (model, W, H, np.frombuffer(p)) for k, model, W, H, p, _ in db.execute("SELECT * FROM cameras")}
    dimg = {name: (k, cam) for k, name, cam in db.execute("SELECT image_id, name, camera_id FROM images")}
    dkey = {k: np.frombuffer(b, np.float32).reshape(r, cc) for k, r, cc, b in db.execute("SELECT * FROM keypoints")}
    dmat = {k: np.frombuffer(b, np.uint32).reshape(r, cc) for k, r, cc, b in db.execute("SELECT * FROM matches")}
    dtwo = {k: (np.frombuffer(b, np.uint32).reshape(r, cc), np.frombuffer(F).reshape(3, 3)) for k, r, cc, b, F in db.execute("SELECT pair_id, rows, cols, data, F FROM two_view_geometries")}
    db.close()
    check(set(dimg) == set(w.names), "images of the database", sorted(dimg))
    back = {v[0]: n for n, v in dimg.items()}
    for n in w.names:
        k, cam = dimg[n]
        q = w.cam[n]
        model, W, H, p = dcam[cam]
        check((W, H) == (q.width, q.height), "camera of", n, "in the database is", W, H)
        P0 = np.array([0.31, -0.2, 1.0])
        u = colmap_project(model, p, P0)
        if c["overrides"] and q.id == next(iter(w.cameras)):
            q = data.load_camera_models_overrides()[q.id]
        v = np.asarray(q.project(P0)) * max(W, H) + [W / 2, H / 2]
        check(np.abs(u - v).max() < 0.75, "camera of", n, "in the database projects to", u, "not", v)
        kp = dkey[k][:, :2]
        check(len(kp) == len(w.feats[n]), "key points of", n)
        v = w.feats[n][:, :2] * max(W, H) + [(W - 1) / 2, (H - 1) / 2]
        check(len(kp) == 0 or np.abs(kp - v).max() < 0.75, "key points of", n)
    check(set(dmat) == set(dtwo), "matches and geometries of different pairs")
    for pair, m in dmat.items():
        b = pair % (2**31 - 1)
        a = (pair - b) // (2**31 - 1)
        check(a < b, "pair", a, b)
        n1, n2 = back[a], back[b]
        known = given.get((n1, n2), set()) | {(y, x) for x, y in given.get((n2, n1), set())}
        m2, F = dtwo[pair]
        check(m.tolist() == m2.tolist(), "matches of", n1, n2)
        check({tuple(x) for x in m.tolist()} <= known and len(m) == len({tuple(x) for x in m.tolist()}), "matches of", n1, n2, "that were not matched")
        x1 = np.c_[dkey[a][m[:, 0], :2], np.ones(len(m))].astype(float)
        x2 = np.c_[dkey[b][m[:, 1], :2], np.ones(len(m))].astype(float)
        l2, l1 = x1 @ F.T, x2 @ F
        e = np.abs((x2 * l2).sum(1))
        e = np.maximum(e / np.hypot(l2[:, 0], l2[:, 1]), e / np.hypot(l1[:, 0], l1[:, 1]))
        check(np.mean(e) < 8.5, "fundamental matrix of", n1, n2, "is off by", e)
        t.label("pair")
    # the model
    check(sorted(v[3] for v in ims.values()) == sorted(w.rec), "images", sorted(v[3] for v in ims.values()))
    for k, (q, tr, cam, name, kps) in ims.items():
        check(dimg[name][0] == k, "image", name, "is", k, "and", dimg[name][0], "in the database")
        R = quat(q)
        check(rot_angle(R @ w.R[name].T) < 1e-4 and np.allclose(-R.T @ tr, w.o[name], atol=1e-3), "pose of", name)
        check(cs[cam][1:3] == (w.cam[name].width, w.cam[name].height), "camera of", name)
        check(cam == dimg[name][1], "camera of", name, "in the database")
    left = {}
    for j, i in w.points:
        left.setdefault(i, []).append(j)
    n_obs = 0
    check(len(pts) == len(w.points), "number of points", len(pts), "not", len(w.points))
    for k, (xyz, rgb, track) in pts.items():
        i = int(np.argmin(((w.X - xyz) ** 2).sum(1)))
        check(np.abs(w.X[i] - xyz).max() < 2e-6 and tuple(rgb) == tuple(w.rgb[i]), "point", xyz, rgb, "is none of the scene")
        check(left.get(i), "point", i, "is there too often")
        seen = {ims[a][3] for a, _ in track}
        j = next((j for j in left[i] if w.seen(j, i) == seen), None)
        check(j is not None and len(track) == len(seen), "point", i, "is seen by", sorted(seen), "not", [sorted(w.seen(j, i)) for j in left[i]])
        left[i].remove(j)
        for a, f in track:
            q, tr, cam, name, kps = ims[a]
            check(f == w.obs[name, i][1], "feature of point", i, "in", name, "is", f)
            check(f < len(kps) and kps[f][2] == k, "key point", f, "of", name, "is", kps[f] if f < len(kps) else "not there", "not of point", k)
            px = w.pixel(name, i)
            check(np.abs(px - kps[f][:2]).max() < 0.75, "key point", f, "of", name, "at", kps[f], "not", px)
            u = colmap_project(cs[cam][0], cs[cam][3], quat(q) @ xyz + tr)
            check(np.abs(px - u).max() < 0.75, "point", i, "projects to", u, "in", name, "not", px)
            n_obs += 1
    for k, v in ims.items():
        ids = [p for _, _, p in v[4] if p != -1]
        check(len(ids) == sum((k, f) in {(a, b) for a, b in pts[p][2]} for f, (_, _, p) in enumerate(v[4]) if p != -1), "key points of", v[3], "name points that do not name them")
    if n_obs >= 20:
        t.nontrivial()


def undistorted(w):
    """The undistorted dataset of a world; images are written when a picture is given."""
    ud = w.data.undistorted_dataset()
    undistort.undistort_reconstruction(w.tracks, w.recs[0], w.data, ud)
    ur = ud.load_undistorted_reconstruction()[0]
    name = {}
    for n, v in ud.load_undistorted_shot_ids().items():
        name[v[0]] = n
    os.makedirs(ud._undistorted_image_path(), exist_ok=True)
    return ud, ur, name


def chosen(w, c, names):
    """An image list file, and the images it keeps."""
    if not c["list"]:
        return "", list(names)
    keep = [n for k, n in enumerate(names) if (c["seed"] >> k) & 1 or k == 0]
    p = w.root + "/some images.txt"
    with open(p, "w") as f:
        f.write("\n".join(keep) + "\n")
    return p, keep


def upixel(w, ur, u, i, P=None):
    """Where point i is in the undistorted image u."""
    s = ur.shots[u]
    P = s.pose.get_rotation_matrix() @ (w.X[i] - s.pose.get_origin())
    q = s.camera
    return P[:2] / P[2] * q.focal * max(q.width, q.height)


@CHECK.sub("nvm", st.fixed_dictionaries(dict(base, cameras=st.lists(cams.cameras(types=PLAIN), min_size=1, max_size=3), identity=st.booleans(), loose=st.booleans(), list=st.booleans(), with_points=st.sampled_from([True, True, False]))),
           quick=200, rule="20 observations were judged")
def nvm(c, t):
    """The cameras of the NVM file see its points where it says."""
    g = rng(c["seed"])
    w = World(t.tmpdir() + "/d", g, c, c["cameras"])
    ud, ur, name = undistorted(w)
    for u, s in ur.shots.items():
        cv2.imwrite(ud._undistorted_image_file(u), np.zeros((s.camera.height, s.camera.width, 3), np.uint8)) if u.isascii() else open(ud._undistorted_image_file(u), "wb").write(cv2.imencode(".png", np.zeros((s.camera.height, s.camera.width, 3), np.uint8))[1].tobytes())
    path, keep = chosen(w, c, list(ur.shots))
    export_visualsfm.run_dataset(w.data, c["with_points"], path)
    with open(ud.data_path + "/reconstruction.nvm", encoding="utf-8") as f:
        words = f.read().split("\n")
    check(words[0] == "NVM_V3" and words[1] == "", "header", words[:2])
    n = int(words[2])
    files = []
    for x in words[3 : 3 + n]:
        x = x.split()
        check(len(x) == 11, "camera", x)
        files.append((x[0], float(x[1]), quat([float(v) for v in x[2:6]]), np.array([float(v) for v in x[6:9]]), x[9:]))
    by = {os.path.relpath(ud._undistorted_image_file(u), ud.data_path): u for u in keep}
    check(sorted(f[0] for f in files) == sorted(by), "images", [f[0] for f in files])
    for f, focal, R, C, rest in files:
        s = ur.shots[by[f]]
        check(rot_angle(R @ s.pose.get_rotation_matrix().T) < 1e-6 and np.allclose(C, s.pose.get_origin(), atol=1e-6), "pose of", f)
        check(float(rest[0]) == 0, "distortion of", f)
        check(abs(focal - s.camera.focal * max(s.camera.width, s.camera.height)) < 1e-3, "focal length of", f)
    rest = [x for x in words[3 + n :] if x != ""]
    if not c["with_points"]:
        check(all(x.strip() == "0" for x in rest), "points", rest[:3])
        return
    want = {}
    for _, i in w.points:
        v = {u for u in keep if (name[u], i) in w.obs and f"t{i}" in ur.points}
        if len(v) > 1:
            want[i] = v
    check(int(rest[0]) == len(want), "number of points", rest[0], "not", len(want))
    n_obs = 0
    for x in rest[1 : 1 + len(want)]:
        x = x.split()
        xyz, rgb = np.array([float(v) for v in x[:3]]), [int(v) for v in x[3:6]]
        i = int(np.argmin(((w.X - xyz) ** 2).sum(1)))
        check(i in want and np.abs(w.X[i] - xyz).max() < 1e-6 and rgb == w.rgb[i].tolist(), "point", xyz, rgb)
        v = x[7:]
        check(len(v) == 4 * int(x[6]), "measurements of point", i)
        m = {by[files[int(v[j])][0]]: (int(v[j + 1]), np.array([float(v[j + 2]), float(v[j + 3])])) for j in range(0, len(v), 4)}
        check(set(m) == want[i] and len(m) == int(x[6]), "point", i, "is seen by", sorted(m))
        for u, (f, q) in m.items():
            cam = ur.shots[u].camera
            px = upixel(w, ur, u, i) + [cam.width / 2, cam.height / 2]
            check(np.abs(q - px).max() < 0.75, "point", i, "is at", q, "in", u, "not", px)
            check(f == w.obs[name[u], i][1], "feature of point", i, "in", u)
            n_obs += 1
        want.pop(i)
    if n_obs >= 20:
        t.nontrivial()


bundler_cameras = cams.cameras(types=["perspective", "brown"])


@CHECK.sub("bundler", st.fixed_dictionaries(dict(base, cameras=st.lists(bundler_cameras, min_size=1, max_size=3), reconstructions=st.sampled_from([1, 1, 2]), identity=st.booleans(), loose=st.booleans(), undistorted=st.booleans(), paths=st.booleans())),
           quick=200, rule="20 observations were judged")
def bundler(c, t):
    """Bundler's own projection of the exported points is where the exported measurements are."""
    g = rng(c["seed"])
    for k in c["cameras"]:
        if k["type"] == "brown" and not c["undistorted"]:
            k.update(ar=1.0, pp=[0.0, 0.0], dist=list(k["dist"][:2]) + [0.0] * (len(k["dist"]) - 2))  # all of a Brown camera that Bundler knows
    if c["undistorted"]:
        c = dict(c, reconstructions=1)
    w = World(t.tmpdir() + "/d", g, c, c["cameras"])
    if c["undistorted"]:
        ud, ur, name = undistorted(w)
        recs = [ur]
    else:
        recs, name = w.recs, {n: n for n in w.names}
    out = [w.root + "/lists", w.root + "/bundles"] if c["paths"] else ["", ""]
    export_bundler.run_dataset(w.data, out[0], out[1], c["undistorted"])
    out = [x or w.root + "/bundler" for x in out]
    n_obs = 0
    for j, r in enumerate(recs):
        with open(f"{out[0]}/list_r{j:03d}.out", encoding="utf-8") as f:
            names = f.read().split("\n")
        check(sorted(names) == sorted(ur.shots if c["undistorted"] else w.names), "images", names)
        with open(f"{out[1]}/bundle_r{j:03d}.out") as f:
            x = f.read().split("\n")
        check(x[0] == "# Bundle file v0.3", "header", x[0])
        v = iter(" ".join(x[1:]).split())
        n, m = int(next(v)), int(next(v))
        check(n == len(names), "number of images", n)
        cam = {}
        for u in names:
            a = np.array([float(next(v)) for _ in range(15)])
            if u in r.shots:
                cam[u] = a[:3], a[3:12].reshape(3, 3), a[12:]
            else:
                check(not a.any(), "camera of", u, "that has none")
        pts = {i for jj, i in w.points if jj == j}
        check(m == len(pts), "number of points", m, "not", len(pts))
        for _ in range(m):
            X = np.array([float(next(v)) for _ in range(3)])
            rgb = [int(next(v)) for _ in range(3)]
            i = int(np.argmin(((w.X - X) ** 2).sum(1)))
            check(i in pts and np.abs(w.X[i] - X).max() < 1e-6 and rgb == w.rgb[i].tolist(), "point", X, rgb)
            pts.remove(i)
            seen = {}
            for _ in range(int(next(v))):
                u = names[int(next(v))]
                check(u not in seen, "point", i, "is seen twice by", u)
                seen[u] = int(next(v)), np.array([float(next(v)), float(next(v))])
            check({name[u] for u in seen} == w.seen(j, i), "point", i, "is seen by", sorted(seen), "not", sorted(w.seen(j, i)))
            for u, (f, q) in seen.items():
                check(f == w.obs[name[u], i][1], "feature of point", i, "in", u)
                (fo, k1, k2), R, tr = cam[u]
                P = R @ X + tr
                p = -P[:2] / P[2]
                check(P[2] < 0, "point", i, "is behind", u)
                r2 = p @ p
                s = fo * (1 + k1 * r2 + k2 * r2 * r2) * p
                if c["undistorted"]:
                    px = upixel(w, ur, u, i)
                else:
                    px = w.obs[u, i][0] * max(w.cam[u].width, w.cam[u].height)
                px = px * [1, -1]
                check(np.abs(q - px).max() < 0.6, "point", i, "is at", q, "in", u, "not", px)
                check(np.abs(s - px).max() < 0.6, "point", i, "projects to", s, "in", u, "not", px)
                shot = r.shots[u]
                own = shot.project(X) * max(shot.camera.width, shot.camera.height) * [1, -1]
                check(np.abs(s - own).max() < 1e-3, "point", i, "projects to", s, "in", u, "and to", own, "by its own camera")
                n_obs += 1
    if n_obs >= 20:
        t.nontrivial()


@CHECK.sub("pmvs", st.fixed_dictionaries(dict(base, cameras=st.lists(cams.cameras(types=["perspective"]), min_size=1, max_size=2), reconstructions=st.sampled_from([1, 1, 2]), identity=st.booleans(), loose=st.booleans(), undistorted=st.booleans(),
                                            list=st.booleans(), size=st.sampled_from([2048, 300]), tracks=st.sampled_from([True, True, False]), blind=st.booleans())), quick=120, rule="an image was judged")
def pmvs(c, t):
    """The projection matrices of PMVS fit its images, and images that see the same points are neighbors."""
    g = rng(c["seed"])
    if c["undistorted"]:
        c = dict(c, reconstructions=1)
    w = World(t.tmpdir() + "/d", g, c, c["cameras"])
    if c["blind"]:  # an image that sees none of the tracks
        b = w.names[0]
        m = pymap.TracksManager()
        for (n, i), (p, f) in w.obs.items():
            if n != b:
                m.add_observation(n, f"t{i}", pymap.Observation(p[0], p[1], 0.01, 0, 0, 0, f))
        w.obs = {k: v for k, v in w.obs.items() if k[0] != b}
        w.tracks = m
        w.data.save_tracks_manager(m)
    fun = {}
    if c["undistorted"]:
        ud, ur, name = undistorted(w)
        recs = [ur]
        for u, s in ur.shots.items():
            img, fun[u] = picture(g, s.camera.width, s.camera.height)
            ud.save_undistorted_image(u, img)
    else:
        recs, name = w.recs, {n: n for n in w.names}
        for n in w.names:
            img, fun[n] = picture(g, w.cam[n].width, w.cam[n].height)
            ext = ".png"
            with open(f"{w.root}/images/{n}", "wb") as f:
                f.write(cv2.imencode(ext, img[:, :, ::-1])[1].tobytes())
    if not c["tracks"]:
        os.remove(w.root + "/tracks.csv")
        if c["undistorted"]:
            os.remove(ud.data_path + "/tracks.csv")
    path, keep = chosen(w, c, [u for r in recs for u in r.shots])
    out = w.root + "/somewhere" if c["identity"] else ""
    export_pmvs.run_dataset(w.data, False, path, out, c["undistorted"])
    out = out or w.root + "/pmvs"
    for j, r in enumerate(recs):
        d = f"{out}/recon{j}"
        names = [u for u in r.shots if u in keep]
        with open(d + "/pmvs_txt") as f:
            opt = dict(x.split(" ", 1) for x in f.read().strip().split("\n"))
        check(opt["timages"].split() == ["-1", "0", str(len(names))], "images", opt["timages"], "not", len(names))
        check(opt["useVisData"] == str(int(c["tracks"])), "useVisData", opt["useVisData"])
        found = {}
        for k in range(len(names)):
            img = cv2.imread(f"{d}/visualize/{k:08d}.jpg")
            check(img is not None, "image", k)
            with open(f"{d}/txt/{k:08d}.txt") as f:
                x = f.read().split()
            check("CONTOUR" in "".join(x[:2]), "header", x[:2])
            P = np.array([float(v) for v in x[-12:]]).reshape(3, 4)
            # whose projection is it?
            M = np.linalg.inv(P[:, :3])
            u = next((u for u in names if u not in found and np.abs(-M @ P[:, 3] - r.shots[u].pose.get_origin()).max() < 1e-2), None)
            check(u is not None, "image", k, "has the projection of none")
            found[u] = k
            s = r.shots[u]
            q = s.camera
            h, wd = img.shape[:2]
            z = min(1, c["size"] / max(q.width, q.height))
            check(abs(wd - q.width * z) <= 1 and abs(h - q.height * z) <= 1, "size of", u, wd, h)
            sc = max(wd, h)
            X = w.X @ s.pose.get_rotation_matrix().T + s.pose.translation
            px = P @ np.c_[w.X, np.ones(len(w.X))].T
            px = (px[:2] / px[2]).T
            want = X[:, :2] / X[:, 2:] * q.focal * sc + [wd / 2, h / 2]
            near = np.abs(want - [wd / 2, h / 2]).max(1) < sc
            check(not near.any() or np.abs(px - want)[near].max() < 1.0, "points of", u, "project to", px[near][:1], "not", want[near][:1])
            # the image shows what is there
            Y, Xg = np.mgrid[5 : h - 5 : 9, 5 : wd - 5 : 9]
            a = np.stack([(Xg - (wd - 1) / 2) / sc, (Y - (h - 1) / 2) / sc], -1)
            if not c["undistorted"]:
                b = a / q.focal
                r2 = (b ** 2).sum(-1, keepdims=True)
                a = a * (1 + q.k1 * r2 + q.k2 * r2 * r2)
            ok = (np.abs(a[..., 0]) < (wd / 2 - 4) / sc) & (np.abs(a[..., 1]) < (h / 2 - 4) / sc)
            if not ok.any():
                continue
            e = np.abs(img[Y, Xg, ::-1].astype(float) - fun[u](a[..., 0], a[..., 1]))[ok]
            check(np.median(e) < 4 and np.percentile(e, 95) < 9, "image of", u, "differs by", np.percentile(e, [50, 95]))
            t.nontrivial()
        with open(d + "/vis.dat") as f:
            v = iter(f.read().split())
        check(next(v) == "VISDATA" and int(next(v)) == len(names), "vis.dat")
        if not c["tracks"]:
            check(next(v, None) is None, "vis.dat without tracks")
            continue
        for _ in names:
            k, m = int(next(v)), int(next(v))
            u = next(u for u in names if found[u] == k)
            adj = sorted(int(next(v)) for _ in range(m))
            sees = lambda u: {i for n, i in w.obs if n == name[u]}
            want = sorted(found[x] for x in names if x != u and sees(x) & sees(u))
            check(adj == want, "neighbors of", u, adj, "not", want)
        check(next(v, None) is None, "vis.dat is too long")


@CHECK.sub("openmvs", st.fixed_dictionaries(dict(base, cameras=st.lists(cams.cameras(types=PLAIN), min_size=1, max_size=3), identity=st.booleans(), loose=st.booleans(), list=st.booleans(), masks=st.booleans())), quick=200, rule="20 observations were judged")
def openmvs(c, t):
    """The cameras of the OpenMVS scene see its points where the images show them."""
    g = rng(c["seed"])
    w = World(t.tmpdir() + "/d", g, c, c["cameras"])
    ud, ur, name = undistorted(w)
    path, keep = chosen(w, c, list(ur.shots))
    masked = set()
    if c["masks"]:
        for u in ur.shots:
            if g.random() < 0.5:
                os.makedirs(ud._undistorted_mask_path(), exist_ok=True)
                open(ud._undistorted_mask_file(u), "wb").close()
                masked.add(u)
    export_openmvs.run_dataset(w.data, path)
    r = Reader(ud.data_path + "/openmvs/scene.mvs")
    check(r.b[:4] == b"MVSI", "header", r.b[:4])
    r.i = 4
    version, _ = r.get("II")
    check(version >= 5, "version", version)
    mat = lambda: np.array(r.get("9d")).reshape(3, 3)
    plats = []
    for _ in range(r.get("Q")):
        pn = r.string()
        cs = []
        for _ in range(r.get("Q")):
            r.string(), r.string()
            cs.append((r.get("II"), mat(), mat(), np.array(r.get("3d"))))
        plats.append((pn, cs, [(mat(), np.array(r.get("3d"))) for _ in range(r.get("Q"))]))
    ims = []
    for _ in range(r.get("Q")):
        n, mask = r.string(), r.string()
        ims.append((n, mask, *r.get("IIII")))
    by = {os.path.abspath(ud._undistorted_image_file(u)): u for u in keep}
    check(sorted(x[0] for x in ims) == sorted(by), "images", [x[0] for x in ims])
    pose = {}
    for f, mask, p, k, q, _ in ims:
        u = by[f]
        check(mask == (os.path.abspath(ud._undistorted_mask_file(u)) if u in masked else ""), "mask of", u, "is", repr(mask))
        (W, H), K, Rc, Cc = plats[p][1][k]
        Rp, Cp = plats[p][2][q]
        R, C = Rc @ Rp, Rp.T @ Cc + Cp
        s = ur.shots[u]
        check(rot_angle(R @ s.pose.get_rotation_matrix().T) < 1e-6 and np.allclose(C, s.pose.get_origin(), atol=1e-6), "pose of", u)
        check((W, H) == (s.camera.width, s.camera.height), "size of", u, W, H)
        pose[u] = K, R, C
    want = {}
    for _, i in w.points:
        v = {u for u in keep if (name[u], i) in w.obs}
        if v:
            want[i] = v
    n_obs = 0
    check(r.get("Q") == len(want), "number of points is not", len(want))
    for _ in range(len(want)):
        xyz = np.array(r.get("3f"))
        i = int(np.argmin(((w.X - xyz) ** 2).sum(1)))
        check(i in want and np.abs(w.X[i] - xyz).max() < 1e-4, "point", xyz)
        views = [by[ims[r.get("If")[0]][0]] for _ in range(r.get("Q"))]
        check(sorted(views) == sorted(want.pop(i)), "point", i, "is seen by", views)
        for u in views:
            K, R, C = pose[u]
            P = K @ R @ (xyz - C)
            q = ur.shots[u].camera
            px = upixel(w, ur, u, i) + [(q.width - 1) / 2, (q.height - 1) / 2]
            check(np.abs(P[:2] / P[2] - px).max() < 0.75, "point", i, "projects to", P[:2] / P[2], "in", u, "not", px)
            P = K @ R @ (w.X[i] - C)
            own = ur.shots[u].project(w.X[i]) * max(q.width, q.height) + [(q.width - 1) / 2, (q.height - 1) / 2]
            check(np.abs(P[:2] / P[2] - own).max() < 1e-2, "point", i, "projects to", P[:2] / P[2], "in", u, "and to", own, "by its own camera")
            n_obs += 1
    if n_obs >= 20:
        t.nontrivial()


PROJECTIONS = ["+proj=utm +zone=30 +ellps=WGS84 +datum=WGS84 +units=m", "+proj=tmerc +lat_0=41 +lon_0=-3 +k=1 +datum=WGS84", "+proj=laea +lat_0=40 +lon_0=-2 +datum=WGS84", "+proj=lcc +lat_1=41 +lat_2=42 +lat_0=41.5 +lon_0=0 +datum=WGS84",
               "+proj=utm +zone=31 +datum=WGS84"]


@CHECK.sub("geocoords", st.fixed_dictionaries(dict(base, cameras=st.lists(cams.cameras(types=["perspective"]), min_size=1, max_size=2), reconstructions=st.sampled_from([1, 1, 2]), identity=st.booleans(), loose=st.just(False), rig=st.booleans(),
                                                 projection=st.sampled_from(PROJECTIONS), what=st.sampled_from(["reconstruction", "reconstruction", "dense", "transformation", "image_positions"]), spread=st.sampled_from([1.0, 10.0]), output=st.booleans())),
           quick=250, rule="positions were judged")
def geocoords(c, t):
    """What is exported in a geographic projection is where it projects."""
    g = rng(c["seed"])
    w = World(t.tmpdir() + "/d", g, c, c["cameras"], rig=c["rig"] and c["reconstructions"] == 1)
    what = c["what"]
    proj = pyproj.Proj(c["projection"])
    ref = scenes.converter()

    def place(x):
        lat, lon, alt = ref.to_lla(*[float(v) for v in x])
        return np.array([*proj(lon, lat), alt])

    name = {"reconstruction": "reconstruction.geocoords.json", "dense": "undistorted/depthmaps/merged.geocoords.ply", "transformation": "geocoords_transformation.txt", "image_positions": "image_geocoords.tsv"}[what]
    out = "other.txt" if c["output"] and what != "reconstruction" else ""
    if what == "dense":
        ud = w.data.undistorted_dataset()
        N = g.normal(0, 1, w.X.shape)
        N /= np.linalg.norm(N, axis=1)[:, None]
        L = g.integers(0, 256, len(w.X))
        ud.save_point_cloud(w.X, N, w.rgb, L)
    export_geocoords.run_dataset(w.data, c["projection"], what == "transformation", what == "image_positions", what == "reconstruction", what == "dense", out)
    path = f"{w.root}/{out or name}"
    tol = 0.02 + 1e-6 * (14 * c["spread"]) ** 2
    J = np.stack([place(np.eye(3)[k]) - place(-np.eye(3)[k]) for k in range(3)], 1) / 2
    U, S, V = np.linalg.svd(J)
    turn = U @ V
    if what == "transformation":
        with open(path) as f:
            T = np.array([[float(v) for v in x.split()] for x in f.read().strip().split("\n")])
        check(T.shape == (4, 4) and T[3].tolist() == [0, 0, 0, 1], "last row", T[3])
        for x in w.X:
            check(np.abs(T[:3, :3] @ x + T[:3, 3] - place(x)).max() < tol, "transformation of", x)
    elif what == "image_positions":
        with open(path, encoding="utf-8") as f:
            rows = [x.split("\t") for x in f.read().strip().split("\n")]
        check([x[0] for x in rows[1:]].sort() == list(w.rec).sort() and len(rows) == 1 + len(w.rec), "images", [x[0] for x in rows])
        for n, *x in rows[1:]:
            check(np.abs(np.array([float(v) for v in x]) - place(w.o[n])).max() < tol, "position of", n, x, "not", place(w.o[n]))
    elif what == "reconstruction":
        recs = w.data.load_reconstruction(name)
        check(len(recs) == len(w.recs), "reconstructions")
        for j, r in enumerate(recs):
            check(set(r.shots) == {n for n in w.rec if w.rec[n] == j}, "images", sorted(r.shots))
            for n, s in r.shots.items():
                check(np.abs(s.pose.get_origin() - place(w.o[n])).max() < tol, "position of", n, s.pose.get_origin(), "not", place(w.o[n]))
                a = rot_angle(s.pose.get_rotation_matrix() @ turn @ w.R[n].T)
                check(a < 3e-3, "rotation of", n, "is off by", a)
            check({(j, int(k[1:])) for k in r.points} == {x for x in w.points if x[0] == j}, "points")
            for k, p in r.points.items():
                check(np.abs(p.coordinates - place(w.X[int(k[1:])])).max() < tol, "position of", k)
    else:
        with open(path) as f:
            x = f.read().split("\n")
        e = x.index("end_header")
        check(f"element vertex {len(w.X)}" in x[:e], "header", x[:e])
        props = [v.split()[-1] for v in x[:e] if v.startswith("property")]
        rows = [v.split() for v in x[e + 1 :] if v]
        check(len(rows) == len(w.X), "number of points", len(rows))
        for i, v in enumerate(rows):
            check(len(v) == len(props), "point", i, v, "of", props)
            v = dict(zip(props, (float(u) for u in v)))
            check(np.abs(np.array([v["x"], v["y"], v["z"]]) - place(w.X[i])).max() < tol + 1e-3, "position of point", i)
            nn = np.array([v["nx"], v["ny"], v["nz"]])
            check(np.abs(nn / np.linalg.norm(nn) - turn @ N[i]).max() < 0.01, "normal of point", i)
            check([v["red"], v["green"], v["blue"]] == w.rgb[i].tolist() and v.get("class", L[i]) == L[i], "color of point", i)
    if len(w.rec):
        t.nontrivial()


@CHECK.sub("positions", st.fixed_dictionaries(dict(base, cameras=st.lists(cams.cameras(types=PLAIN), min_size=1, max_size=1), reconstructions=st.sampled_from([1, 2]), identity=st.booleans(), loose=st.booleans(), spread=st.sampled_from([1.0, 100.0]))),
           quick=60, rule="images were judged")
def positions(c, t):
    """Positions and directions of the cameras on the Earth, as tables and GeoJSON."""
    g = rng(c["seed"])
    w = World(t.tmpdir() + "/d", g, c, c["cameras"])
    ref = scenes.converter()
    gps = {}
    for n in w.names:
        e = w.data.load_exif(n)
        gps[n] = [float(g.uniform(-3, -2)), float(g.uniform(41, 42))]
        e["gps"] = {"longitude": gps[n][0], "latitude": gps[n][1], "altitude": 5.0}
        w.data.save_exif(n, e)
    repo = os.path.dirname(os.path.dirname(os.path.abspath(dataset.__file__)))
    argv, path = sys.argv, list(sys.path)
    try:
        sys.argv = ["export_gps", w.root, "--output", w.root + "/gps.tsv"]
        runpy.run_path(repo + "/bin/export_gps", run_name="__main__")
        sys.argv = ["export_geojson", w.root]
        runpy.run_path(repo + "/bin/export_geojson", run_name="__main__")
    finally:
        sys.argv, sys.path[:] = argv, path
    with open(w.root + "/gps.tsv") as f:
        rows = [x.split("\t") for x in f.read().strip("\n").split("\n")]
    check(rows[0] == ["image", "latitude", "longitude", "altitude", "compass_angle"], "header", rows[0])
    check([x[0] for x in rows[1:]] == sorted(w.rec), "images", [x[0] for x in rows[1:]])
    where = {}
    for n, *x in rows[1:]:
        lat, lon, alt, angle = (float(v) for v in x)
        check(np.abs(np.array(ref.to_topocentric(lat, lon, alt)) - w.o[n]).max() < 1e-4, "position of", n)
        d = w.R[n].T @ [0, 0, 1.0]  # east, north, up
        if math.hypot(d[0], d[1]) > 1e-3:
            err = (angle - math.degrees(math.atan2(d[0], d[1])) + 180) % 360 - 180
            check(abs(err) < 1e-6 and 0 <= angle <= 360, "direction of", n, angle)
        where[n] = [lon, lat, alt]
        t.nontrivial()
    read = lambda f: [x["geometry"]["coordinates"] for x in json.load(open(w.root + f))["features"]]
    check(sorted(map(tuple, read("/reconstruction.geojson"))) == sorted(tuple(v) for v in where.values()), "reconstructed positions")
    check(sorted(map(tuple, read("/reconstruction.gps.geojson"))) == sorted(tuple(gps[n]) for n in w.rec), "positions of the images")


@CHECK.sub("ply", st.fixed_dictionaries(dict(base, cameras=st.lists(cams.cameras(types=["perspective"]), min_size=1, max_size=2), reconstructions=st.sampled_from([1, 1, 2]), identity=st.booleans(), loose=st.booleans(), depthmaps=st.sampled_from([True, True, False]),
                                           no_cameras=st.booleans(), no_points=st.booleans(), views=st.booleans())), quick=80, rule="depths were judged")
def ply(c, t):
    """The points of a depthmap are where its camera sees them, with the colors of the image."""
    g = rng(c["seed"])
    w = World(t.tmpdir() + "/d", g, c, c["cameras"])
    ud, ur, name = undistorted(w)
    maps = {}
    for u, s in ur.shots.items():
        W, H = s.camera.width, s.camera.height
        img, fun = picture(g, W, H)
        ud.save_undistorted_image(u, img)
        z = g.uniform(0.05, 0.2)
        dw, dh = max(3, int(W * z)), max(3, int(H * z))
        os.makedirs(ud._depthmap_path(), exist_ok=True)
        for kind in ("clean", "raw"):
            if g.random() < 0.7:
                depth = np.where(g.random((dh, dw)) < 0.05, g.uniform(1, 20, (dh, dw)), 0)
                np.savez_compressed(ud.depthmap_file(u, kind + ".npz"), depth=depth, plane=np.zeros((dh, dw, 3)), score=np.zeros((dh, dw)))
                maps[u, kind] = depth, fun
    export_ply.run_dataset(w.data, c["no_cameras"], c["no_points"], c["depthmaps"], c["views"])
    with open(w.root + "/reconstruction.ply") as f:
        props, rows = parse_ply(f.read())
    check(("views" in props) == c["views"], "properties", props)
    r = w.recs[0]
    pts = [] if c["no_points"] else list(r.points.values())
    check(c["no_cameras"] == (len(rows) == len(pts)), "vertices", len(rows), "of", len(pts), "points")
    have = sorted((round(v["x"], 6), round(v["y"], 6), round(v["z"], 6), v["red"], v["green"], v["blue"]) for v in rows[: len(pts)])
    want = sorted(tuple(round(float(x), 6) for x in p.coordinates) + tuple(int(x) for x in p.color) for p in pts)
    check(have == want, "points of the reconstruction")
    n = 0
    for u, s in ur.shots.items():
        for kind in ("clean", "raw"):
            path = ud.depthmap_file(u, kind + ".ply")
            check(os.path.isfile(path) == (c["depthmaps"] and (u, kind) in maps), "file of the", kind, "depths of", u)
            if not os.path.isfile(path):
                continue
            depth, fun = maps[u, kind]
            dh, dw = depth.shape
            sc = max(dw, dh)
            with open(path) as f:
                props, rows = parse_ply(f.read())
            check(len(rows) == np.count_nonzero(depth), "points of the", kind, "depths of", u, len(rows))
            seen = set()
            for v in rows:
                X = np.array([v["x"], v["y"], v["z"]])
                P = s.pose.get_rotation_matrix() @ X + s.pose.translation
                a = P[:2] / P[2] * s.camera.focal
                x, y = a * sc + [dw / 2, dh / 2]  # as the depthmaps are computed
                i, j = int(round(y)), int(round(x))
                check(abs(x - j) < 1e-4 and abs(y - i) < 1e-4 and 0 <= i < dh and 0 <= j < dw and (i, j) not in seen, "point", X, "at", x, y, "of", u)
                seen.add((i, j))
                check(abs(P[2] - depth[i, j]) < 1e-6 * depth[i, j], "depth", P[2], "of", u, "not", depth[i, j])
                # the colors of the image there (averaged over the pixel)
                b = np.array([(j + 0.5) / dw * s.camera.width - s.camera.width / 2, (i + 0.5) / dh * s.camera.height - s.camera.height / 2]) / max(s.camera.width, s.camera.height)
                col = np.array([v["red"], v["green"], v["blue"]], float)
                h = 0.5 * s.camera.width / dw / max(s.camera.width, s.camera.height)
                near = np.array([fun(b[0] + dx, b[1] + dy) for dx in (-h, 0, h) for dy in (-h, 0, h)])
                check((col > near.min(0) - 14).all() and (col < near.max(0) + 14).all(), "color", col, "of", u, "at", b, "not", near.mean(0))
                n += 1
    if n:
        t.nontrivial()
