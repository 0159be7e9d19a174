"""Synthetic scenes on disk: cameras, poses, points, tracks, metadata and rigs, all known."""

import json
import math
import os

import numpy as np
from gen import rodrigues
from opensfm import dataset, geo, pygeometry, pymap

REFERENCE = {"latitude": 41.3, "longitude": -2.7, "altitude": 120.0}


def look(forward, up=(0, 0, 1.0)):
    """World to camera rotation of a camera that looks along a direction (x right, y down)."""
    z = np.asarray(forward, float) / np.linalg.norm(forward)
    x = np.cross(z, up)
    x /= np.linalg.norm(x)
    return np.stack([x, np.cross(z, x), z])


def make_camera(kind, focal, g, name="cam", w=4000, h=3000):
    if kind == "perspective":
        c = pygeometry.Camera.create_perspective(focal, *(g.uniform(-0.05, 0.05, 2) * [1, 0.3]))
    elif kind == "fisheye":
        c = pygeometry.Camera.create_fisheye(focal, *(g.uniform(-0.03, 0.03, 2) * [1, 0.3]))
    elif kind == "brown":
        c = pygeometry.Camera.create_brown(focal, 1 + g.uniform(-0.002, 0.002), g.uniform(-0.004, 0.004, 2), np.r_[g.uniform(-0.03, 0.03, 2) * [1, 0.3], 0, g.uniform(-1e-3, 1e-3, 2)])
    else:
        c = pygeometry.Camera.create_spherical()
    c.id, c.width, c.height = name, w, h
    return c


class Scene:
    """Truth: names, R (world to camera), o (origins), X (points), cameras (per image), observations."""

    def visible(self, k, margin=0.98):
        """Indices of the points in front of and within image k, and their projections."""
        cam = self.cameras[self.camera_of[k]]
        P = (self.X - self.o[k]) @ self.R[k].T
        if cam.projection_type == "spherical":
            ok = np.linalg.norm(P, axis=1) > 0.5
        else:
            a = np.arctan2(np.hypot(P[:, 0], P[:, 1]), P[:, 2])
            ok = (P[:, 2] > 0.5) & (a < (1.2 if cam.projection_type == "fisheye" else 0.9))  # where distortions do not fold
        ok &= np.linalg.norm(P, axis=1) < self.far
        idx = np.nonzero(ok)[0]
        if len(idx) == 0:
            return idx, np.zeros((0, 2))
        px = np.array([cam.project(p) for p in P[idx]])
        if cam.projection_type != "spherical":
            s = max(cam.width, cam.height)
            inside = (np.abs(px[:, 0]) < margin * 0.5 * cam.width / s) & (np.abs(px[:, 1]) < margin * 0.5 * cam.height / s)
            idx, px = idx[inside], px[inside]
        return idx, px


def layout(kind, n, g):
    """Origins and rotations of n cameras, and a function to draw points they see."""
    if kind == "street":
        o = np.stack([np.arange(n) * 1.5, g.uniform(-0.3, 0.3, n), g.uniform(1.6, 2.2, n)], 1)
        side = g.choice([-1, 1])
        R = [look([g.uniform(-0.15, 0.15), side, g.uniform(-0.05, 0.05)]) for _ in range(n)]
        L = n * 1.5

        def points(m):
            return np.stack([g.uniform(-4, L + 4, m), side * g.uniform(5, 11, m), g.uniform(-0.5, 6, m)], 1)
    elif kind == "aerial":
        w = math.ceil(math.sqrt(n))
        o = np.array([[(k % w) * 12.0, (k // w) * 12.0, 40.0] for k in range(n)]) + g.uniform(-1, 1, (n, 3))
        R = [look([g.uniform(-0.12, 0.12), g.uniform(-0.12, 0.12), -1], (0, 1, 0)) for _ in range(n)]
        L = w * 12

        def points(m):
            return np.stack([g.uniform(-12, L, m), g.uniform(-12, L, m), g.uniform(0, 12, m)], 1)
    else:  # orbit
        a = np.arange(n) * (0.9 * math.pi / max(n, 6)) + g.uniform(-0.03, 0.03, n)
        o = np.stack([10 * np.cos(a), 10 * np.sin(a), g.uniform(1.5, 3.0, n)], 1)
        R = [look(np.array([g.uniform(-0.3, 0.3), g.uniform(-0.3, 0.3), 2.0]) - p) for p in o]

        def points(m):
            return np.stack([g.uniform(-3, 3, m), g.uniform(-3, 3, m), g.uniform(0, 4.5, m)], 1)
    return o, np.array(R), points


def make(g, kind="street", n=8, points=250, camera="perspective", noise=0.0, outliers=0.0, prior=0.0, gps_noise=0.0, rig=0, parts=1, min_track=2, far=60.0):
    """A scene; parts > 1 makes as many scenes that share nothing, 500 m apart."""
    s = Scene()
    s.far, s.rig = far, rig
    focal = {"perspective": g.uniform(0.6, 0.9), "brown": g.uniform(0.6, 0.9), "fisheye": g.uniform(0.45, 0.6), "spherical": 1.0}[camera]
    s.cameras = {"cam": make_camera(camera, focal, g)} if camera != "spherical" else {"cam": make_camera(camera, 1, g, w=4000, h=2000)}
    s.names, s.camera_of, s.part, s.instance = [], [], [], []
    s.rig_poses = []
    if rig:
        # cameras of a rig: the first is the reference, others are turned and displaced
        for j in range(rig):
            A = rodrigues([0, 0.35 * j, 0]) if j else np.eye(3)
            c = np.array([0.05 * (j - (rig - 1) / 2), 0, 0])  # their average is the origin
            s.rig_poses.append((A, c))  # rotation rig to camera, origin in the rig
    O, R, X, P = [], [], [], []
    for p in range(parts):
        o, Rk, draw = layout(kind, n, g)
        shift = np.array([500.0 * p, -300.0 * p, 0])
        for k in range(n):
            for j in range(max(1, rig)):
                s.names.append(f"p{p}_{k:03d}_{j}.jpg")
                A, c = s.rig_poses[j] if rig else (np.eye(3), np.zeros(3))
                R.append(A @ Rk[k])
                O.append(o[k] + shift + Rk[k].T @ c)
                s.camera_of.append("cam")
                s.part.append(p)
                s.instance.append(f"p{p}_{k:03d}")
        X.append(draw(points) + shift)
        P += [p] * points
    s.o, s.R, s.X, s.point_part = np.array(O), np.array(R), np.concatenate(X), np.array(P)
    s.observations = {}  # (image, point) -> (projection with noise, is an outlier)
    seen = {}
    for k, name in enumerate(s.names):
        idx, px = s.visible(k)
        for i, q in zip(idx, px):
            if s.point_part[i] == s.part[k]:
                seen.setdefault(int(i), []).append((name, q))
    for i, obs in seen.items():
        if len(obs) < min_track:
            continue
        for name, q in obs:
            bad = bool(g.random() < outliers)
            q = q + g.normal(0, noise, 2) if noise else q
            if bad:
                a = g.uniform(0, 2 * math.pi)
                q = np.clip(q + g.uniform(0.06, 0.2) * np.array([math.cos(a), math.sin(a)]), -0.49, 0.49)
            s.observations[name, i] = (q, bad)
    s.gps = s.o + (g.normal(0, gps_noise, s.o.shape) if gps_noise else 0)
    s.prior = {}
    for c in s.cameras.values():
        q = make_camera(c.projection_type, 1.0, g, c.id, c.width, c.height)
        q.set_parameters_values(c.get_parameters_values())
        if c.projection_type != "spherical" and prior:
            q.focal = c.focal * (1 + float(g.uniform(-prior, prior)))
        s.prior[c.id] = q
    return s


def tracks_of(s, names=None, prefix=""):
    m = pymap.TracksManager()
    ids = {}
    for (name, i), (q, _) in s.observations.items():
        if names is None or name in names:
            f = ids[name] = ids.get(name, -1) + 1
            m.add_observation(name, f"{prefix}{i}", pymap.Observation(float(q[0]), float(q[1]), 0.002, i % 256, (i * 7) % 256, (i * 13) % 256, f))
    return m


def converter():
    return geo.TopocentricConverter(REFERENCE["latitude"], REFERENCE["longitude"], REFERENCE["altitude"])


def write(s, root, cfg=None, gps=True, dop=None, extra=None):
    """A dataset with the images, metadata, camera models, reference and rigs of a scene."""
    os.makedirs(os.path.join(root, "images"))
    for n in s.names:
        open(os.path.join(root, "images", n), "wb").close()
    with open(os.path.join(root, "config.yaml"), "w") as f:
        json.dump(dict({"processes": 1}, **(cfg or {})), f)
    with open(os.path.join(root, "reference_lla.json"), "w") as f:
        json.dump(REFERENCE, f)
    d = dataset.DataSet(root)
    ref = converter()
    for k, n in enumerate(s.names):
        c = s.cameras[s.camera_of[k]]
        e = {"camera": s.camera_of[k], "width": c.width, "height": c.height, "orientation": 1, "make": "m", "model": "n", "focal_ratio": 0.8, "projection_type": c.projection_type,
             "capture_time": 1000.0 + k, "gps": {}}
        if gps is True or (gps and n in gps):
            lat, lon, alt = ref.to_lla(*s.gps[k])
            e["gps"] = {"latitude": lat, "longitude": lon, "altitude": alt}
            if dop is not None:
                e["gps"]["dop"] = dop
        e.update((extra or {}).get(n, {}))
        d.save_exif(n, e)
    d.save_camera_models(s.prior)
    if s.rig:
        rc = {}
        for j, (A, c) in enumerate(s.rig_poses):
            rc[f"rc{j}"] = pymap.RigCamera(pygeometry.Pose(A, -A @ c), f"rc{j}")
        d.save_rig_cameras(rc)
        inst = {}
        for k, n in enumerate(s.names):
            inst.setdefault(s.instance[k], []).append((n, f"rc{k % s.rig}"))
        d.save_rig_assignments(inst)
    return d


def similarity(A, B):
    """Scale, rotation and translation with B = s R A + t in the least squares sense."""
    a, b = A.mean(0), B.mean(0)
    U, S, V = np.linalg.svd((B - b).T @ (A - a))
    D = np.diag([1, 1, np.sign(np.linalg.det(U @ V))])
    R = U @ D @ V
    sc = np.trace(D @ np.diag(S)) / max(1e-300, ((A - a) ** 2).sum())
    return sc, R, b - sc * R @ a
