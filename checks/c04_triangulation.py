"""C04: triangulation of points from two or more rays."""

import math

import numpy as np
from cams import cameras, make, project
from gen import grid, rng, rodrigues, seeds, st, ugrid
from harness import Check, Skip, check
from opensfm import multiview, pygeometry, pymap, types
from opensfm.reconstruction import TrackHandlerBase, TrackTriangulator, retriangulate, triangulate_shot_features
from opensfm import config as config_module

CHECK = Check("C04")
CHECK.assumptions = [
    "decisions closer than 1e-7 to a threshold are not judged",
    "scenes whose normal equations are conditioned worse than 1e6 are judged on the decision only",
]


def unit(v):
    return v / np.linalg.norm(v, axis=-1, keepdims=True)


def angle(u, v):
    return math.atan2(np.linalg.norm(np.cross(u, v)), float(np.dot(u, v)))


def scene(case):
    """Centers, unit bearings (world) towards a noisy point."""
    g = rng(case["seed"])
    n = case["n"]
    X = g.normal(size=3) * case["far"]
    C = g.normal(size=(n, 3)) * case["base"]
    if case["line"]:
        # centers along a line through the point, on both sides
        k = g.uniform(0.5, 3, n) * np.where(np.arange(n) % 2, 1, -1)
        C = X + k[:, None] * (C[0] - X) + 0.3 * case["line"] * case["min_angle"] * g.normal(size=(n, 3))
    if case["sweep"]:
        # rays that turn slowly: each next to its neighbours, the ends apart
        n = max(n, 4)
        total = case["min_angle"] * case["sweep"]
        u, w = np.linalg.qr(g.normal(size=(3, 3)))[0][:2]
        a = np.linspace(0, total, n)
        C = X - np.linalg.norm(X - C[0]) * (np.cos(a)[:, None] * u + np.sin(a)[:, None] * w)
        C = C[g.permutation(n)] if case["one"] else C
    B = unit(X - C)
    noise = case["noise"] * g.normal(size=(len(C), 3))
    if case["one"]:
        noise[1:] = 0
    B = unit(B + noise)
    if case["back"]:
        B[case["back"] % len(B)] *= -1
    return g, C, B


scene_s = st.fixed_dictionaries({
    "seed": seeds, "n": st.sampled_from([2, 2, 3, 4, 5, 6, 7, 10]), "far": st.sampled_from([0.1, 1.0, 10.0, 100.0]),
    "base": st.sampled_from([0.1, 1.0, 5.0]),
    "noise": st.sampled_from([0.0, 1e-6, 1e-3, 1e-2, 0.1]), "one": st.booleans(),
    "back": st.sampled_from([0, 0, 0, 0, 1, 2, 3]), "line": st.sampled_from([0, 0, 0, 1, 2]), "sweep": st.sampled_from([0, 0, 0, 1.02, 1.3]),
    "thr": st.sampled_from([1e-3, 6e-3, 0.02, 0.1, 0.5]), "thrs": st.booleans(),
    "min_angle": st.sampled_from([0.0, 0.02, 0.1, 0.5]), "min_depth": st.sampled_from([1e-6, 1e-3, 0.5, 3.0]),
})


def midpoint(C, B):
    """Minimizer of the summed squared distances to the rays, and conditioning."""
    A = sum(np.eye(3) - np.outer(b, b) for b in B)
    r = sum((np.eye(3) - np.outer(b, b)) @ c for b, c in zip(B, C))
    if not np.linalg.cond(A) < 1e12:
        raise Skip()
    return np.linalg.solve(A, r), np.linalg.cond(A)


def gate_angle(B, min_angle):
    """Some pair of rays makes an angle in [min, pi - min]: True/False/None if borderline."""
    out = False
    for i in range(len(B)):
        for j in range(i):
            a = angle(B[i], B[j])
            m = min(a - min_angle, math.pi - min_angle - a)
            if m > 1e-7:
                return True
            if m > -1e-7:
                out = None
    return out


def gate_point(X, C, B, thrs, min_depth, slack):
    ok = True
    for c, b, th in zip(C, B, thrs):
        p = X - c
        d = np.linalg.norm(p)
        s = slack / max(d, 1e-12) + 1e-7
        a = angle(p, b)
        if a > th + s or p @ b < min_depth - slack - 1e-7:
            return False
        if a > th - s or p @ b < min_depth + slack + 1e-7 or a > math.pi - 1e-3:
            ok = None
    return ok


def judge(got, Xref, C, B, thrs, case, cond, scale, t):
    valid, X = got
    slack = 1e-9 * scale * cond
    g1 = gate_angle(B, case["min_angle"])
    g2 = gate_point(Xref, C, B, thrs, case["min_depth"], slack)
    want = False if g1 is False or g2 is False else (None if g1 is None or g2 is None else True)
    if cond > 1e6 and g1 is not False:
        want = None
    if want is None:
        t.label("borderline")
        return
    t.label("accepted" if want else "angle" if g1 is False else "point")
    t.nontrivial()
    check(bool(valid) == want, "accepted" if valid else "rejected", "wanted", want, X, Xref)
    if want:
        check(np.linalg.norm(np.array(X) - Xref) <= 10 * slack + 1e-9 * scale, X, Xref)


@CHECK.sub("midpoint", scene_s, 3000, rule="the decision is not borderline")
def midpoint_(case, t):
    """Least-squares point, accepted exactly under the documented conditions."""
    g, C, B = scene(case)
    n = len(B)
    thrs = [case["thr"]] * n
    if case["thrs"]:
        thrs = [case["thr"] * float(x) for x in g.uniform(0.3, 3, n)]
    X, cond = midpoint(C, B)
    got = pygeometry.triangulate_bearings_midpoint(C, B, thrs, case["min_angle"], case["min_depth"])
    judge(got, X, C, B, thrs, case, cond, case["far"] + case["base"], t)


@CHECK.sub("dlt", scene_s, 3000, rule="the decision is not borderline")
def dlt(case, t):
    """The algebraic solution, accepted under the same conditions."""
    g, C, B = scene(case)
    n = len(B)
    Rs = [rodrigues(v) for v in g.normal(size=(n, 3))]
    Rts = [np.hstack([R, (-R @ c)[:, None]]) for R, c in zip(Rs, C)]
    bs = np.array([R @ b for R, b in zip(Rs, B)])
    A = []
    for Rt, b in zip(Rts, bs):
        A += [b[0] * Rt[2] - b[2] * Rt[0], b[1] * Rt[2] - b[2] * Rt[1]]
    _, s, Vt = np.linalg.svd(np.array(A))
    h = Vt[3]
    if len(s) == 4 and s[2] - s[3] < 1e-5 * s[0] or abs(h[3]) < 1e-6:
        t.label("degenerate")
        raise Skip()
    X = h[:3] / h[3]
    cond = (s[0] / (s[2] - (s[3] if len(s) > 3 else 0))) / h[3] ** 2
    got = pygeometry.triangulate_bearings_dlt(Rts, bs, case["thr"], case["min_angle"], case["min_depth"])
    judge(got, X, C, B, [case["thr"]] * n, case, cond, case["far"] + case["base"], t)


@CHECK.sub("two_views", st.fixed_dictionaries({
    "seed": seeds, "n": st.integers(1, 12), "rot": st.sampled_from([0.0, 0.1, 1.5]),
    "noise": st.sampled_from([0.0, 1e-3, 0.1]), "parallel": st.integers(0, 3),
}), 1500, rule="at least one ray pair is triangulated")
def two_views(case, t):
    """Closest point of two rays, and the epipolar angle of all pairs."""
    g = rng(case["seed"])
    n = case["n"]
    R = rodrigues(case["rot"] * g.normal(size=3))
    tr = g.normal(size=3) * float(g.choice([0.1, 1.0, 10.0]))
    X = g.normal(size=(n, 3)) * 5
    b1 = unit(unit(X) + case["noise"] * g.normal(size=(n, 3)))
    b2 = unit(unit((X - tr) @ R) + case["noise"] * g.normal(size=(n, 3)))
    for i in range(min(case["parallel"], n)):
        b2[i] = R.T @ b1[i]
    got = pygeometry.triangulate_two_bearings_midpoint_many(b1, b2, R, tr)
    check(len(got) == n)
    for i, (ok, x) in enumerate(got):
        u, v = b1[i], R @ b2[i]
        sin = np.linalg.norm(np.cross(u, v))
        ok1, x1 = pygeometry.triangulate_two_bearings_midpoint(np.array([np.zeros(3), tr]), np.array([u, v]))
        if sin < 3e-6:
            check(not ok and not ok1, "parallel rays", i)
            t.label("parallel")
        elif sin > 1e-3:
            c = u @ v
            k1 = (tr @ u - c * (tr @ v)) / (1 - c * c)
            k2 = (c * (tr @ u) - tr @ v) / (1 - c * c)
            ref = (k1 * u + tr + k2 * v) / 2
            tol = 1e-11 * (1 + np.linalg.norm(ref) + np.linalg.norm(tr)) / sin ** 3
            check(ok and np.linalg.norm(np.array(x) - ref) < tol, "midpoint", i, x, ref)
            check(ok1 and np.linalg.norm(np.array(x1) - ref) < tol, "single midpoint", i, x1, ref)
            t.nontrivial()
    # all pairs of different counts
    m = max(1, n - 2)
    E = np.array(pygeometry.epipolar_angle_two_bearings_many(b1, b2[:m], R, tr))
    check(E.shape == (n, m), "shape", E.shape)
    w = b2 @ R.T
    tn = unit(tr)
    for i in range(n):
        for j in range(m):
            e1, e2 = np.cross(tn, b1[i]), np.cross(tn, w[j])
            if min(np.linalg.norm(e1), np.linalg.norm(e2)) < 1e-3:
                continue
            s = (abs(unit(e1) @ w[j]) + abs(unit(e2) @ b1[i])) / 2
            check(abs(E[i, j] - math.asin(min(1, s))) < 1e-9 / max(1e-4, math.sqrt(max(0, 1 - s))), "epipolar angle", i, j, E[i, j], s)
            if case["noise"] == 0 and i == j and i >= case["parallel"]:
                check(E[i, j] < 1e-8, "true pair", E[i, j])


def cost(X, C, B):
    return 0.5 * float(np.sum((unit(X - C) - B) ** 2))


def refine(X, C, B):
    X = np.array(X, float)
    lam = 1e-6
    for _ in range(300):
        g, H = np.zeros(3), np.zeros((3, 3))
        for c, b in zip(C, B):
            p = X - c
            d = np.linalg.norm(p)
            u = p / d
            J = (np.eye(3) - np.outer(u, u)) / d
            g += J.T @ (u - b)
            H += J.T @ J
        step = np.linalg.solve(H + lam * np.diag(np.diag(H)), -g)
        if cost(X + step, C, B) <= cost(X, C, B):
            X = X + step
            lam = max(lam / 10, 1e-12)
            if np.linalg.norm(step) < 1e-13 * (1 + np.linalg.norm(X)):
                break
        else:
            lam *= 10
    return X, np.linalg.cond(H)


@CHECK.sub("refinement", st.fixed_dictionaries({
    "seed": seeds, "n": st.integers(2, 6), "noise": st.sampled_from([0.0, 1e-4, 1e-2]),
    "off": st.sampled_from([0.0, 0.01, 0.2]), "iterations": st.sampled_from([0, 1, 5, 10, 50]),
}), 1500, rule="the start is off the optimum and iterations are allowed")
def refinement(case, t):
    """The refined point minimizes the bearing residuals, and never has more than the start."""
    g = rng(case["seed"])
    n = case["n"]
    X = g.normal(size=3)
    C = unit(g.normal(size=(n, 3))) * g.uniform(2, 6, (n, 1)) + X
    if n == 2 and abs(unit(C[0] - X) @ unit(C[1] - X)) > 0.95:
        raise Skip()
    B = unit(unit(X - C) + case["noise"] * g.normal(size=(n, 3)))
    start = X + case["off"] * g.normal(size=3)
    got = np.array(pygeometry.point_refinement(C, B, start, case["iterations"]))
    check(got.shape == (3,) and np.all(np.isfinite(got)), got)
    check(cost(got, C, B) <= cost(start, C, B) * (1 + 1e-9) + 1e-15, "cost grew")
    if case["iterations"] == 0:
        check(np.allclose(got, start, rtol=0, atol=1e-12), "moved without iterations")
        return
    ref, cond = refine(start, C, B)
    t.nontrivial(case["off"] > 0 or case["noise"] > 0)
    if case["iterations"] >= 10 and cond < 1e4:
        check(cost(got, C, B) < cost(ref, C, B) * (1 + 1e-3) + 1e-9, "not at the optimum", got, ref)
    if case["iterations"] >= 5 and case["off"] > 0 and cost(start, C, B) > 3 * cost(ref, C, B) + 1e-9:
        check(cost(got, C, B) < cost(start, C, B), "no progress")


# ---- tracks -----------------------------------------------------------------


class Handler(TrackHandlerBase):
    def __init__(self, observations):
        self.observations, self.points, self.inliers = observations, {}, {}

    def get_observations(self, track_id):
        return self.observations[track_id]

    def store_track_coordinates(self, track_id, coordinates):
        self.points[track_id] = np.array(coordinates)

    def store_inliers_observation(self, track_id, shot_id):
        self.inliers.setdefault(track_id, []).append(shot_id)


cam_s = cameras(types=("perspective", "brown", "fisheye", "spherical", "radial"), amp=0.1)
track_s = st.fixed_dictionaries({
    "seed": seeds, "cam": cam_s, "n": st.integers(1, 9), "tracks": st.integers(1, 4),
    "noise": st.sampled_from([0.0, 1e-5, 1e-4, 0.001, 0.003]), "outliers": st.integers(0, 2),
    "roll": st.sampled_from([0.0, 3.0]), "narrow": st.integers(0, 5), "behind": st.integers(0, 6),
})


def tracks(case):
    """A reconstruction with n shots around a small cloud; per track the shots
    that see it, the wrong ones, and the true point."""
    g = rng(case["seed"])
    rec = types.Reconstruction()
    rec.reference = types.TopocentricConverter(0, 0, 0) if hasattr(types, "TopocentricConverter") else rec.reference
    cam = dict(case["cam"], id="cam")
    rec.add_camera(make(cam))
    poses = {}
    for i in range(case["n"]):
        s = f"s{i}"
        d = unit(g.normal(size=3)) * g.uniform(4, 8)
        if case["narrow"] == 1:
            d = np.array([0, 0, 6.0]) + 0.001 * g.normal(size=3)
        z = unit(-d + 0.1 * g.normal(size=3))
        x = unit(np.cross(unit(g.normal(size=3)), z))
        R = np.stack([x, np.cross(z, x), z])
        if case["roll"] == 0.0 and case["narrow"] == 1:
            R = np.diag([1.0, -1.0, -1.0])
        p = pygeometry.Pose(R, -R @ d)
        rec.create_shot(s, "cam", pose=p)
        poses[s] = (R, d)
    obs, truth = {}, {}
    for k in range(case["tracks"]):
        X = g.normal(size=3) * 0.4
        shots = list(poses)
        # the wrong ones are moved by far more than any threshold
        bad = set(int(x) for x in g.permutation(len(shots))[: case["outliers"]])
        o = {}
        for i, s in enumerate(shots):
            R, c = poses[s]
            Y = X
            if i in bad:
                Y = X + 0.8 * unit(np.cross(X - c, g.normal(size=3))) * (1 + g.random())
            u = project(cam, R @ (Y - c)) + case["noise"] * g.normal(size=2)
            o[s] = (u, i in bad)
        obs[f"t{k}"], truth[f"t{k}"] = o, X
    return g, rec, poses, obs, truth, cam


def as_observation(u, k):
    return pymap.Observation(float(u[0]), float(u[1]), 0.01, 1, 2, 3, k, -1, -1)


@CHECK.sub("tracks", st.tuples(track_s, st.sampled_from(["ROBUST", "FULL", "ROBUST", "DLT"]), st.sampled_from(["handler", "manager", "all", "shots"])), 1800,
           rule="at least one track is triangulated")
def tracks_(case, t):
    """Every method recovers the true point of good tracks, and every stored
    point agrees with every observation stored with it."""
    c, method, via = case
    g, rec, poses, obs, truth, cam = tracks(c)
    n, bad = c["n"], min(c["outliers"], c["n"])
    thr, min_angle, min_depth, iters = 0.006, 1.0, 1e-4, 10
    handler = Handler({k: {s: as_observation(u, 0) for s, (u, _) in o.items()} for k, o in obs.items()})
    tm = pymap.TracksManager()
    for k, o in obs.items():
        for i, (s, (u, _)) in enumerate(o.items()):
            tm.add_observation(s, k, as_observation(u, int(k[1:])))
        # a shot that is not in the reconstruction takes no part
        tm.add_observation("elsewhere", k, as_observation((0.1, 0.1), int(k[1:])))
    if method == "DLT" or via == "handler" or via == "manager":
        if via == "handler":
            h = handler
        else:
            from opensfm.reconstruction import TrackHandlerTrackManager
            h = TrackHandlerTrackManager(tm, rec)
        tri = TrackTriangulator(rec, h)
        f = {"FULL": tri.triangulate, "ROBUST": tri.triangulate_robust, "DLT": tri.triangulate_dlt}[method]
        for k in obs:
            f(k, thr, min_angle, min_depth, iters)
    else:
        h = None
        conf = config_module.default_config()
        conf.update(triangulation_threshold=thr, triangulation_min_ray_angle=min_angle,
                    triangulation_min_depth=min_depth, triangulation_refinement_iterations=iters,
                    triangulation_type=method)
        if via == "all":
            rec.create_point("stale", [1.0, 2.0, 3.0])
            retriangulate(tm, rec, conf)
            check("stale" not in rec.points, "a point without track survives")
        else:
            triangulate_shot_features(tm, rec, {"s0", "elsewhere", "nowhere"}, conf)
    if h is handler:
        points = handler.points
        inliers = {k: set(v) for k, v in handler.inliers.items()}
        for v in handler.inliers.values():
            check(len(v) == len(set(v)), "an observation is stored twice", v)
    else:
        points = {k: np.array(p.coordinates) for k, p in rec.points.items()}
        inliers = {k: {s.id for s in p.get_observations()} for k, p in rec.points.items()}
        for k, p in rec.points.items():
            for s, fid in p.get_observations().items():
                o = rec.shots[s.id].get_landmark_observation(p)
                check(np.array_equal(np.array(o.point), np.array(tm.get_observation(s.id, k).point)), "observation of", k, s.id)
    check(set(points) == set(inliers) and set(points) <= set(obs), "points", set(points), set(inliers))
    camera = make(cam)
    for k, X in points.items():
        o = obs[k]
        check(len(inliers[k]) >= 2, "a point with fewer than two observations")
        check(inliers[k] <= set(o), "unknown shots", inliers[k])
        for s, (u, wrong) in o.items():
            R, c_ = poses[s]
            b = R.T @ np.array(camera.pixel_bearing(np.array(u)))
            err = float(np.linalg.norm(unit(X - c_) - b))
            if s in inliers[k]:
                check(err < 2 * thr, method, "stored observation is off by", err, k, s)
            if method == "ROBUST" and abs(err - thr) > 1e-9:
                check((s in inliers[k]) == (err < thr), "inliers do not match the stored point", k, s, err)
        if method != "ROBUST":
            check(inliers[k] == set(o), "observations left out", k)
    t.nontrivial(points)
    good = n - bad
    if c["narrow"] == 1:
        # rays within a milliradian of each other
        if bad == 0 and c["noise"] <= 1e-4:
            check(not points, "narrow rays were accepted")
        t.label("narrow")
        return
    for k, X in truth.items():
        # rays nearly along one line do not fix the point
        dirs = [unit(X - poses[s][1]) for s, (_, w) in obs[k].items() if not w]
        wide = [1 for i in range(len(dirs)) for j in range(i) if 0.2 < angle(dirs[i], dirs[j]) < math.pi - 0.2]
        if not wide or good < 2:
            if len(obs[k]) < 2:
                check(k not in points, "a point from one ray")
            continue
        accurate = k in points and np.linalg.norm(points[k] - X) < (5000 if method == "ROBUST" else 1500) * c["noise"] + 1e-4
        if c["noise"] > 1e-4 or method == "ROBUST" and c["noise"] > 1e-5:
            continue
        if bad == 0:
            if method != "ROBUST" or good == 2 and len(wide) == 1 or len(wide) * 10 >= 9 * good * (good - 1) / 2:
                t.label("clean")
                check(accurate, method, "missed a clean track", k, points.get(k), X)
                check(inliers[k] == set(obs[k]), "missed observations", inliers[k])
        elif method != "ROBUST":
            pass
        elif bad == 1 and good >= 6 and len(wide) * 10 >= 9 * good * (good - 1) / 2:
            t.label("outlier")
            check(accurate, "missed a track with one wrong observation", k, points.get(k), X)
            check(inliers[k] == {s for s, (_, w) in obs[k].items() if not w}, "wrong inliers", inliers[k])


@CHECK.sub("retries", st.tuples(seeds, st.integers(0, 2)), 40, rule="always")
def retries(case, t):
    """With one wrong view of three, every choice of the good pair is reachable."""
    seed, wrong = case
    g = rng(seed)
    rec = types.Reconstruction()
    rec.add_camera(make({"type": "perspective", "id": "cam", "width": 10, "height": 10, "focal": 1.0, "ar": 1.0,
                         "pp": [0, 0], "transition": 0, "dist": [0.0, 0.0]}))
    X = g.normal(size=3) * 0.2
    obs = {}
    for i in range(3):
        c = np.array([4 * math.cos(i), 4 * math.sin(i), -5.0])
        rec.create_shot(f"s{i}", "cam", pose=pygeometry.Pose(np.eye(3), -c))
        p = X - c
        u = p[:2] / p[2] + (np.array([math.sin(i), -math.cos(i)]) * 0.3 + g.normal(size=2) * 0.01 if i == wrong else 0)
        obs[f"s{i}"] = as_observation(u, 0)
    hits = 0
    for k in range(20):
        h = Handler({"t": obs})
        np.random.seed(k)
        TrackTriangulator(rec, h).triangulate_robust("t", 0.006, 1.0, 1e-4, 10)
        hits += set(h.inliers.get("t", [])) == {f"s{i}" for i in range(3)} - {f"s{wrong}"}
    t.nontrivial()
    check(hits >= 12, "the good pair was found in", hits, "of 20 runs")


@CHECK.sub("gcp", st.tuples(track_s, st.sampled_from([0.004, 0.02]), st.sampled_from([1.0, 20.0])), 500, rule="the point is triangulated")
def gcp(case, t):
    """Control points are triangulated from the shots of the reconstruction only."""
    c, thr, min_angle = case
    g, rec, poses, obs, truth, cam = tracks(c)
    camera = make(cam)
    k = "t0"
    point = pymap.GroundControlPoint()
    point.id = "g"
    os_ = []
    C, B = [], []
    for s, (u, _) in obs[k].items():
        o = pymap.GroundControlPointObservation()
        o.shot_id, o.projection = s, np.array(u)
        os_.append(o)
        R, d = poses[s]
        C.append(d)
        B.append(R.T @ np.array(camera.pixel_bearing(np.array(u))))
    o = pymap.GroundControlPointObservation()
    o.shot_id, o.projection = "elsewhere", np.array([0.3, 0.3])
    os_.insert(0, o)
    point.observations = os_
    got = multiview.triangulate_gcp(point, rec.shots, thr, min_angle, 0.001)
    if len(C) < 2:
        check(got is None, "a point from one ray")
        return
    C, B = np.array(C), np.array(B)
    ref, cond = midpoint(C, B)
    if cond > 1e5:
        raise Skip()
    a = gate_angle(B, math.radians(min_angle))
    p = gate_point(ref, C, B, [thr] * len(C), 0.001, 1e-9 * cond)
    if a is None or p is None:
        raise Skip()
    check((got is not None) == bool(a and p), "decision", got, a, p)
    if got is not None:
        t.nontrivial()
        check(np.linalg.norm(np.array(got) - ref) < 1e-8 * cond, got, ref)
