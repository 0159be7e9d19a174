"""Reference model of bundle adjustment: the objective written from the
definition of its terms, over plain dictionaries, and the same problem handed
to the adjuster.

Poses are (rotation vector, origin), camera to world."""

import copy
import math
import re

import cams
import numpy as np
from gen import rodrigues, rotvec_of
from opensfm import pybundle, pygeometry, pymap

SD_NAMES = ["focal", "aspect_ratio", "c", "k1", "k2", "p1", "p2", "k3", "k4"]


def names_of(t):
    """The parameters of a camera model."""
    if t == "spherical":
        return []
    out = ["transition"] if t == "dual" else []
    out.append("focal")
    if t in cams.AFFINE:
        out += ["ar", "cx", "cy"]
    return out + [cams.NAMES[i] for i in cams.SLOTS[t]]


def get_params(cam):
    z = cams.full(cam)
    out = []
    for n in names_of(cam["type"]):
        if n in ("transition", "focal", "ar"):
            out.append(cam[n])
        elif n in ("cx", "cy"):
            out.append(cam["pp"][n == "cy"])
        else:
            out.append(z[cams.NAMES.index(n)])
    return np.array(out)


def set_params(cam, values):
    cam = copy.deepcopy(cam)
    d = []
    for n, v in zip(names_of(cam["type"]), values):
        v = float(v)
        if n in ("transition", "focal", "ar"):
            cam[n] = v
        elif n in ("cx", "cy"):
            cam["pp"][n == "cy"] = v
        else:
            d.append(v)
    cam["dist"] = d
    return cam


def read_camera(c, like):
    """The dictionary of a camera object of a known model."""
    if like["type"] == "spherical":
        return like
    out = []
    for n in names_of(like["type"]):
        if n in ("transition", "focal"):
            out.append(getattr(c, n))
        elif n == "ar":
            out.append(c.aspect_ratio)
        elif n in ("cx", "cy"):
            out.append(c.principal_point[int(n == "cy")])
        else:
            out.append(getattr(c, n))
    return set_params(like, out)


def pose_of(p):
    R = rodrigues(p[0])
    out = pygeometry.Pose(R.T.copy())
    out.set_origin(np.array(p[1], float))
    return out


def read_pose(pose):
    return [np.array(rotvec_of(pose.get_R_cam_to_world())), np.array(pose.get_origin())]


def project_many(cam, P):
    """Normalized image coordinates of points in the camera frame (n x 3)."""
    t = cam["type"]
    x, y, z = P.T
    if t == "spherical":
        return np.stack([np.arctan2(x, z), np.arctan2(y, np.hypot(x, z))], 1) / (2 * math.pi)
    r = np.hypot(x, y)
    rr = np.where(r > 0, r, 1.0)
    k = np.where(r > 0, np.arctan2(r, z) / rr, 1 / z)
    fish = np.stack([x * k, y * k])
    if t in cams.FISH:
        q = fish
    else:
        q = np.stack([x / z, y / z])
        if t == "dual":
            q = cam["transition"] * q + (1 - cam["transition"]) * fish
    q = cams.distort(cams.full(cam), q)
    if t in cams.AFFINE:
        return np.stack([cam["focal"] * q[0] + cam["pp"][0], cam["focal"] * cam["ar"] * q[1] + cam["pp"][1]], 1)
    return cam["focal"] * q.T


def bearing_of(xy):
    """Unit vector of a point of an equirectangular image."""
    lon, lat = xy[0] * 2 * math.pi, xy[1] * 2 * math.pi
    return np.array([math.cos(lat) * math.sin(lon), math.sin(lat), math.cos(lat) * math.cos(lon)])


def rho(name, a, s):
    if name is None or name == "TrivialLoss":
        return s
    if name == "HuberLoss":
        return s if s <= a * a else 2 * a * math.sqrt(s) - a * a
    if name == "SoftLOneLoss":
        return 2 * a * a * (math.sqrt(1 + s / (a * a)) - 1)
    if name == "CauchyLoss":
        return a * a * math.log1p(s / (a * a))
    if name == "ArctanLoss":
        return a * math.atan2(s, a)
    if name == "TukeyLoss":
        return a * a / 3 * (1 - (1 - s / (a * a)) ** 3) if s <= a * a else a * a / 3
    raise KeyError(name)


def wrap(a):
    return (a + math.pi) % (2 * math.pi) - math.pi


def cubic(p, x):
    """Catmull-Rom through p[1] at 0 and p[2] at 1."""
    a = 0.5 * (-p[0] + 3 * p[1] - 3 * p[2] + p[3])
    b = 0.5 * (2 * p[0] - 5 * p[1] + 4 * p[2] - p[3])
    c = 0.5 * (-p[0] + p[2])
    return p[1] + x * (c + x * (b + x * a))


def bicubic(grid, row, col):
    h, w = grid.shape
    r, c = math.floor(row), math.floor(col)
    rows = []
    for i in range(-1, 3):
        line = grid[min(max(r + i, 0), h - 1)]
        rows.append(cubic([line[min(max(c + j, 0), w - 1)] for j in range(-1, 3)], col - c))
    return cubic(rows, row - r)


class Problem:
    """Plain data: see the attributes."""

    def __init__(self):
        self.cameras = {}  # id -> dict(value, prior, fixed)
        self.rigs = {}  # id -> dict(value, prior, fixed)
        self.instances = {}  # id -> dict(value, fixed, shots {shot: (cam, rig)}, prior or None)
        self.points = {}  # id -> dict(value, fixed, prior or None)
        self.obs = []  # dict(shot, point, xy, sd, depth or None)
        self.recs = {}  # id -> dict(fixed, shared, scales {instance: s})
        self.terms = []  # dict(kind=..., ...)
        self.biases = {}  # camera -> [rotation vector, translation, scale] applied to position priors (all of them free)
        self.gauge = None
        self.loss = ("CauchyLoss", 1.0)
        self.rel_loss = ("CauchyLoss", 1.0)
        self.sd = [1.0] * 9
        self.rig_sd = (1.0, 1.0)  # translation, rotation
        self.adjust_std = False

    def shot(self, sid):
        for iid, inst in self.instances.items():
            if sid in inst["shots"]:
                cam, rig = inst["shots"][sid]
                return iid, cam, rig
        raise KeyError(sid)

    # ---- the adjuster
    def build(self, analytic, iterations=None):
        ba = pybundle.BundleAdjuster()
        ba.set_internal_parameters_prior_sd(*self.sd)
        for cid, c in self.cameras.items():
            ba.add_camera(cid, cams.make(c["value"]), cams.make(c["prior"]), c["fixed"])
        for rid, r in self.rigs.items():
            ba.add_rig_camera(rid, pose_of(r["value"]), pose_of(r["prior"]), r["fixed"])
        for iid, i in self.instances.items():
            ba.add_rig_instance(iid, pose_of(i["value"]), {s: c for s, (c, _) in i["shots"].items()},
                                {s: r for s, (_, r) in i["shots"].items()}, i["fixed"])
            if i["prior"] is not None:
                pos, sd, group = i["prior"]
                ba.add_rig_instance_position_prior(iid, np.array(pos), np.array(sd), group)
        for pid, p in self.points.items():
            ba.add_point(pid, np.array(p["value"]), p["fixed"])
            if p["prior"] is not None:
                pos, sd, alt = p["prior"]
                ba.add_point_prior(pid, np.array(pos), np.array(sd), alt)
        for o in self.obs:
            extra = []
            if o["depth"] is not None:
                v, sd, radial = o["depth"]
                extra = [pymap.Depth(value=v, std_deviation=sd, is_radial=radial)]
            ba.add_point_projection_observation(o["shot"], o["point"], np.array(o["xy"]), o["sd"], *extra)
        for rid, r in self.recs.items():
            ba.add_reconstruction(rid, r["fixed"])
            for iid, s in r["scales"].items():
                ba.add_reconstruction_instance(rid, s, iid)
            ba.set_scale_sharing(rid, r["shared"])
        for t in self.terms:
            getattr(self, "_add_" + t["kind"])(ba, t)
        if self.gauge:
            ba.set_gauge_fix_shots(*self.gauge)
        ba.set_point_projection_loss_function(*self.loss)
        ba.set_relative_motion_loss_function(*self.rel_loss)
        ba.set_adjust_absolute_position_std(self.adjust_std)
        ba.set_use_analytic_derivatives(analytic)
        if iterations is not None:
            ba.set_max_num_iterations(iterations)
        return ba

    def _add_relative_motion(self, ba, t):
        rm = pybundle.RelativeMotion(t["i"], t["j"], np.array(t["r"]), np.array(t["t"]), t["s"], t["mult"], t["observed"])
        if t["matrix"] is not None:
            rm.set_scale_matrix(np.array(t["matrix"]))
        ba.add_relative_motion(rm)

    def _add_relative_rotation(self, ba, t):
        rr = pybundle.RelativeRotation(t["i"], t["j"], np.array(t["r"]))
        if t["matrix"] is not None:
            rr.set_scale_matrix(np.array(t["matrix"]))
        ba.add_relative_rotation(rr)

    def _add_common(self, ba, t):
        ba.add_common_position(t["i"], t["j"], t["margin"], t["sd"])

    def _add_up(self, ba, t):
        ba.add_absolute_up_vector(t["i"], np.array(t["v"]), t["sd"])

    def _add_pan(self, ba, t):
        ba.add_absolute_pan(t["i"], t["angle"], t["sd"])

    def _add_tilt(self, ba, t):
        ba.add_absolute_tilt(t["i"], t["angle"], t["sd"])

    def _add_roll(self, ba, t):
        ba.add_absolute_roll(t["i"], t["angle"], t["sd"])

    def _add_linear(self, ba, t):
        ba.add_linear_motion(t["i"], t["j"], t["k"], t["alpha"], t["sd"], t["rsd"])

    def _add_heatmap(self, ba, t):
        hid = f"h{t['n']}"
        g = np.array(t["grid"])
        ba.add_heatmap(hid, [float(x) for x in g.ravel()], g.shape[1], t["res"])
        ba.add_absolute_position_heatmap(t["i"], hid, t["x"], t["y"], t["sd"])

    # ---- the state
    def initial(self):
        return {
            "cameras": {k: get_params(v["value"]) for k, v in self.cameras.items()},
            "rigs": {k: [np.array(x, float) for x in v["value"]] for k, v in self.rigs.items()},
            "instances": {k: [np.array(x, float) for x in v["value"]] for k, v in self.instances.items()},
            "points": {k: np.array(v["value"], float) for k, v in self.points.items()},
            "recs": {k: self._scales(v) for k, v in self.recs.items()},
            "biases": {k: np.concatenate([v[0], v[1], [v[2]]]) for k, v in self.biases.items()},
        }

    @staticmethod
    def _scales(r):
        if r["shared"]:
            first = r["scales"][min(r["scales"])]
            return {k: first for k in r["scales"]}
        return dict(r["scales"])

    def read(self, ba):
        return {
            "cameras": {k: get_params(read_camera(ba.get_camera(k), v["value"])) for k, v in self.cameras.items()},
            "rigs": {k: read_pose(ba.get_rig_camera_pose(k)) for k in self.rigs},
            "instances": {k: read_pose(ba.get_rig_instance_pose(k)) for k in self.instances},
            "points": {k: np.array(ba.get_point(k).p) for k in self.points},
            "recs": {k: {i: ba.get_reconstruction(k).get_scale(i) for i in v["scales"]} for k, v in self.recs.items()},
            "biases": {},
        }

    # ---- the objective
    def poses(self, st):
        inst = {k: (rodrigues(r), c) for k, (r, c) in st["instances"].items()}
        rigs = {k: (rodrigues(r), c) for k, (r, c) in st["rigs"].items()}
        out = {}
        for iid, i in self.instances.items():
            R, c = inst[iid]
            for s, (_, rig) in i["shots"].items():
                Q, d = rigs[rig]
                out[s] = (R @ Q, c + R @ d)
        return inst, out

    def reprojections(self, st):
        """Residuals of the observations, with unit deviation."""
        _, shots = self.poses(st)
        out = [None] * len(self.obs)
        groups = {}
        for k, o in enumerate(self.obs):
            groups.setdefault(o["shot"], []).append(k)
        for s, ks in groups.items():
            _, cid, _ = self.shot(s)
            R, c = shots[s]
            X = np.array([st["points"][self.obs[k]["point"]] for k in ks])
            L = (X - c) @ R
            cam = set_params(self.cameras[cid]["value"], st["cameras"][cid])
            if cam["type"] == "spherical":
                u = L / np.linalg.norm(L, axis=1, keepdims=True)
                for k, v in zip(ks, u):
                    out[k] = (v - bearing_of(self.obs[k]["xy"]), L[ks.index(k)])
            else:
                for k, v in zip(ks, project_many(cam, L)):
                    out[k] = (v - self.obs[k]["xy"], L[ks.index(k)])
        return out

    def camera_sd(self, name):
        sd = dict(zip(SD_NAMES, self.sd))
        return {"transition": 1.0, "focal": sd["focal"], "ar": sd["aspect_ratio"], "cx": sd["c"], "cy": sd["c"],
                "k1": sd["k1"], "k2": sd["k2"], "k3": sd["k3"], "k4": sd["k4"], "k5": sd["k4"], "k6": sd["k4"],
                "p1": sd["p1"], "p2": sd["p2"], "s0": sd["p1"], "s1": sd["p2"], "s2": sd["p1"], "s3": sd["p2"]}[name]

    def blocks(self, st):
        """(residual vector, loss name, loss scale) of every term but the deviations of the position priors."""
        out = []
        inst, shots = self.poses(st)
        for cid, c in self.cameras.items():
            t = c["value"]["type"]
            v, p = st["cameras"][cid], get_params(c["prior"])
            r = []
            for n, a, b in zip(names_of(t), v, p):
                r.append((math.log(a / b) if n in ("focal", "ar") else a - b) / self.camera_sd(n))
            if r:
                out.append((np.array(r), None, 0, "camera"))
            if t == "dual":
                x = v[0]
                out.append((np.array([math.log(x + 1e-10) + math.log(1 - x + 1e-10) + 2 * math.log(0.5)]), None, 0, "barrier"))
        for rid, r in self.rigs.items():
            v = st["rigs"][rid]
            d = np.concatenate([(v[0] - r["prior"][0]) / self.rig_sd[1], (v[1] - r["prior"][1]) / self.rig_sd[0]])
            out.append((d, None, 0, "rig"))
        for pid, p in self.points.items():
            if p["prior"] is not None:
                pos, sd, alt = p["prior"]
                d = (st["points"][pid] - pos) / sd
                out.append((d if alt else d[:2], None, 0, "point"))
        for o, (r, L) in zip(self.obs, self.reprojections(st)):
            out.append((r / o["sd"], *self.loss, "projection"))
            if o["depth"] is not None:
                v, sd, radial = o["depth"]
                out.append((np.array([((np.linalg.norm(L) if radial else L[2]) - v) / sd]), *self.loss, "depth"))
        for t in self.terms:
            out.append(getattr(self, "_res_" + t["kind"])(t, st, inst, shots) + (t["kind"],))
        if self.gauge:
            a, b = (self.shot(s)[0] for s in self.gauge)
            d0 = np.linalg.norm(np.array(self.instances[a]["value"][1]) - self.instances[b]["value"][1])
            d = np.linalg.norm(inst[a][1] - inst[b][1])
            out.append((np.array([math.log(d / d0)]), None, 0, "gauge"))
        return out

    def prior_groups(self, st):
        """Half the squared normalized error of the position priors, per group."""
        out = {}
        for iid, i in self.instances.items():
            if i["prior"] is not None:
                pos, sd, g = i["prior"]
                d = (st["instances"][iid][1] - self.biased(st, i, pos)) / sd
                out[g] = out.get(g, 0.0) + 0.5 * float(d @ d)
        return out

    def biased(self, st, instance, pos):
        """The prior position of an instance, seen through the bias of its camera."""
        b = st["biases"].get(min(c for c, _ in instance["shots"].values()))
        return pos if b is None else b[6] * (rodrigues(b[:3]) @ pos) + b[3:6]

    def cost(self, st, dev=1.0):
        """The objective; dev is the deviation of the position priors (None: the best one)."""
        total = sum(0.5 * rho(n, a, float(r @ r)) for r, n, a, _ in self.blocks(st))
        for g, s in self.prior_groups(st).items():
            if not self.adjust_std:
                total += s
                continue
            f = lambda v: s / (v * v) + 0.5 * (math.log(v) + 0.5 * math.log(2 * math.pi)) ** 2
            total += f(dev) if dev is not None else min(f(v) for v in np.exp(np.linspace(-25, 25, 20001)))
        return total

    def _res_relative_motion(self, t, st, inst, shots):
        (Ri, ti), (Rj, tj) = inst[t["i"]], inst[t["j"]]
        owner = {i: r for r, v in self.recs.items() for i in v["scales"]}
        si, sj = (st["recs"][owner[x]][x] for x in (t["i"], t["j"]))
        r = np.zeros(7)
        r[:3] = rotvec_of(rodrigues(t["r"]) @ Ri.T @ Rj)
        r[3:6] = t["t"] - sj * (Rj.T @ (ti - tj))
        r[6] = t["s"] - sj / si if t["observed"] else 0.0
        if t["matrix"] is not None:
            r = np.array(t["matrix"]) @ r
        return r, self.rel_loss[0], self.rel_loss[1] * t["mult"]

    def _res_relative_rotation(self, t, st, inst, shots):
        r = rotvec_of(rodrigues(t["r"]) @ shots[t["i"]][0].T @ shots[t["j"]][0])
        if t["matrix"] is not None:
            r = np.array(t["matrix"]) @ r
        return (r, *self.rel_loss)

    def _res_common(self, t, st, inst, shots):
        d = shots[t["i"]][1] - shots[t["j"]][1]
        d = d.copy()
        d[:2] = np.maximum(0, np.abs(d[:2]) - t["margin"])
        return d / t["sd"], "TukeyLoss", 1.0

    def _res_up(self, t, st, inst, shots):
        v = np.array(t["v"]) / np.linalg.norm(t["v"])
        return (shots[t["i"]][0] @ v - [0, 0, 1]) / t["sd"], "CauchyLoss", 1.0

    def _res_pan(self, t, st, inst, shots):
        z = shots[t["i"]][0][:, 2]
        return np.array([wrap(math.atan2(z[0], z[1]) - t["angle"]) / t["sd"]]), "CauchyLoss", 1.0

    def _res_tilt(self, t, st, inst, shots):
        z = shots[t["i"]][0][:, 2]
        return np.array([wrap(-math.atan2(z[2], math.hypot(z[0], z[1])) - t["angle"]) / t["sd"]]), "CauchyLoss", 1.0

    def _res_roll(self, t, st, inst, shots):
        R = shots[t["i"]][0]
        level = np.cross(R[:, 2], [0, 0, 1])
        level /= np.linalg.norm(level)
        roll = math.atan2(R[:, 2] @ np.cross(R[:, 0], level), R[:, 0] @ level)
        return np.array([wrap(roll - t["angle"]) / t["sd"]]), "CauchyLoss", 1.0

    def _res_linear(self, t, st, inst, shots):
        (R0, t0), (R1, t1), (R2, t2) = (shots[t[k]] for k in "ijk")
        r = np.zeros(6)
        r[:3] = (t["alpha"] - np.linalg.norm(t1 - t0) / np.linalg.norm(t2 - t0)) / t["sd"]
        part = rodrigues(t["alpha"] * rotvec_of(R2 @ R0.T))
        r[3:] = rotvec_of(part @ R0 @ R1.T) / t["rsd"]
        return r, "CauchyLoss", 1.0

    def _res_heatmap(self, t, st, inst, shots):
        g = np.array(t["grid"])
        x, y = shots[t["i"]][1][:2]
        row = g.shape[0] / 2 - (y - t["y"]) / t["res"]
        col = g.shape[1] / 2 + (x - t["x"]) / t["res"]
        return np.array([bicubic(g, row, col) / t["sd"]]), None, 0

    # ---- what may move
    def restart(self, st):
        """The same problem, starting from a state."""
        P = copy.deepcopy(self)
        for kind in ("rigs", "instances"):
            for k, v in st[kind].items():
                getattr(P, kind)[k]["value"] = [[float(x) for x in y] for y in v]
        for k, v in st["points"].items():
            P.points[k]["value"] = [float(x) for x in v]
        for k, v in P.cameras.items():
            v["value"] = set_params(v["value"], st["cameras"][k])
        for k, v in P.recs.items():
            v["scales"] = dict(st["recs"][k])
        return P

    def vertical(self, st):
        """Some view whose pan or roll is judged looks straight up or down."""
        _, shots = self.poses(st)
        return any(np.hypot(*shots[t["i"]][0][:2, 2]) < 1e-3 for t in self.terms if t["kind"] in ("roll", "pan", "tilt"))

    def free(self):
        out = [("cameras", k) for k, v in self.cameras.items() if not v["fixed"] and len(get_params(v["value"]))]
        out += [("rigs", k) for k, v in self.rigs.items() if not v["fixed"]]
        pinned = self.shot(self.gauge[0])[0] if self.gauge else None
        out += [("instances", k) for k, v in self.instances.items() if not v["fixed"] and k != pinned]
        out += [("points", k) for k, v in self.points.items() if not v["fixed"]]
        out += [("biases", k) for k in self.biases]
        for k, v in self.recs.items():
            if not v["fixed"]:
                out += [("recs", k, i) for i in ([min(v["scales"])] if v["shared"] else v["scales"])]
        return out

    def moved(self, st, key, i, h):
        """The state with one coordinate of a block changed."""
        st = dict(st)
        st[key[0]] = dict(st[key[0]])
        v = st[key[0]][key[1]]
        if key[0] == "recs":
            v = dict(v)
            for k in v:
                if k == key[2] or self.recs[key[1]]["shared"]:
                    v[k] += h
        elif key[0] in ("rigs", "instances"):
            v = [v[0].copy(), v[1].copy()]
            v[i // 3][i % 3] += h
        else:
            v = v.copy()
            v[i] += h
        st[key[0]][key[1]] = v
        return st

    def size(self, key):
        return {"cameras": lambda: len(get_params(self.cameras[key[1]]["value"])), "rigs": lambda: 6, "instances": lambda: 6,
                "points": lambda: 3, "biases": lambda: 7, "recs": lambda: 1}[key[0]]()

    def step(self, st, d):
        k = 0
        for key in self.free():
            for i in range(self.size(key)):
                st = self.moved(st, key, i, float(d[k]))
                k += 1
        return st

    def gain(self, st):
        """Decrease of the objective achieved by one damped step from a state: nothing at a local optimum."""
        r, w = self.weighted(st, None)
        cols = []
        for key in self.free():
            for i in range(self.size(key)):
                h = 1e-6
                a = self.weighted(self.moved(st, key, i, h), w)[0]
                b = self.weighted(self.moved(st, key, i, -h), w)[0]
                cols.append((a - b) / (2 * h))
        if not cols:
            return 0.0
        J = np.array(cols).T
        n = np.maximum(np.linalg.norm(J, axis=0), 1e-6)
        g = (J / n).T @ r
        H = (J / n).T @ (J / n)
        c0 = self.cost(st)
        best = 0.0
        for lam in (1e-8, 1e-6, 1e-4, 1e-2, 1.0):
            d = -np.linalg.solve(H + lam * np.eye(len(n)), g) / n
            try:
                after = self.step(st, d)
                if any(x <= 0 for r in after["recs"].values() for x in r.values()):
                    continue
                # a local optimum: already a small part of the step must pay
                near = c0 - self.cost(self.step(st, 0.01 * d))
                best = max(best, min(c0 - self.cost(after), 50 * near))
            except (ValueError, ZeroDivisionError):
                pass
        return best

    def weighted(self, st, w):
        """Residuals scaled by the square root of the loss' slope."""
        r, ws = [], []
        bl = self.blocks(st)
        for k, (v, n, a, _) in enumerate(bl):
            if w is None:
                s = float(v @ v)
                e = 1e-6 * max(1.0, s)
                d = (rho(n, a, s + e) - rho(n, a, max(s - e, 0))) / (e + min(e, s))
                ws.append(math.sqrt(max(d, 0)))
                r.append(v * ws[-1])
            else:
                r.append(v * w[k])
        for iid, i in self.instances.items():
            if i["prior"] is not None:
                pos, sd, g = i["prior"]
                r.append((st["instances"][iid][1] - self.biased(st, i, pos)) / sd)
        return np.concatenate(r) if r else np.zeros(0), ws


def report(ba):
    m = re.search(r"Initial cost: *(\S+), *Final cost: *(\S+), *Termination: *(\S+)", ba.brief_report())
    return float(m.group(1)), float(m.group(2)), m.group(3)
