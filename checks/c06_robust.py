"""C06: robust estimation and two-view reconstruction."""

import math

import numpy as np
from gen import rng, rodrigues, rot_angle, rotvec_of, seeds, st
from harness import Check, Skip, check
from opensfm import multiview, pygeometry, pyrobust, reconstruction

CHECK = Check("C06")
CHECK.assumptions = [
    "recovery is asked of well conditioned scenes with at most 45 % outliers",
    "residuals within a millionth of the threshold are not judged",
]


def unit(v):
    return v / np.linalg.norm(v, axis=-1, keepdims=True)


def views(g, n, kind, noise=0.0):
    """Bearings of n points in two cameras: y = R x + t."""
    if kind == "around":
        X = unit(g.normal(size=(n, 3))) * g.uniform(3, 8, (n, 1))
    elif kind == "plane":
        X = np.c_[g.uniform(-3, 3, (n, 2)), np.zeros(n)] @ rodrigues(0.4 * g.normal(size=3)).T + [0, 0, 6]
    else:
        X = np.c_[g.uniform(-2.5, 2.5, (n, 2)), g.uniform(4, 9, n)]
    R = rodrigues(unit(g.normal(size=3)) * 0.4 * g.random())
    t = unit(g.normal(size=3)) * g.uniform(0.8, 1.5)
    Y = X @ R.T + t
    nz = noise / math.sqrt(2)
    return unit(unit(X) + nz * g.normal(size=X.shape)), unit(unit(Y) + nz * g.normal(size=X.shape)), R, t, X


def midpoint(b1, b2, R, t):
    """Midpoint of the two rays, in the first camera; nan when parallel."""
    c, w = -R.T @ t, b2 @ R
    p = np.sum(b1 * w, axis=1)
    d = 1 - p * p
    d = np.where(d < 1e-10, np.nan, d)
    return (((b1 @ c - p * (w @ c)) / d)[:, None] * b1 + c + ((p * (b1 @ c) - w @ c) / d)[:, None] * w) / 2


class Rel:
    """A 3x4 motion from two sets of bearings."""
    name, size, angular = "ransac_relative_pose", 5, True

    def scene(self, g, n, noise):
        b1, b2, R, t, _ = views(g, n, "front" if g.random() < 0.5 else "around", noise)
        return b1, b2, np.c_[R, unit(t)]

    def bad(self, g, a, b, k):
        return unit(g.normal(size=(k, 3)))

    def errors(self, m, a, b):
        R, t = m[:, :3], m[:, 3]
        M = midpoint(unit(a), unit(b), R, t)
        e = 1 - (np.sum(unit(M) * unit(a), axis=1) + np.sum(unit(M @ R.T + t) * unit(b), axis=1)) / 2
        return np.where(np.isnan(e), 1.0, e)

    def dist(self, m, m0):
        return rot_angle(m[:, :3] @ m0[:, :3].T) + np.linalg.norm(unit(m[:, 3]) - m0[:, 3]) / 3


class Ess(Rel):
    name, angular = "ransac_essential", False

    def scene(self, g, n, noise):
        a, b, m = Rel.scene(self, g, n, noise)
        t = m[:, 3]
        E = np.array([[0, -t[2], t[1]], [t[2], 0, -t[0]], [-t[1], t[0], 0]]) @ m[:, :3]
        return a, b, E / np.linalg.norm(E)

    def errors(self, m, a, b):
        return np.abs(np.arcsin(np.clip(np.sum(b * (a @ m.T), axis=1), -1, 1)))

    def dist(self, m, m0):
        m, m0 = m / np.linalg.norm(m), m0 / np.linalg.norm(m0)
        return min(np.linalg.norm(m - m0), np.linalg.norm(m + m0)) / 2


class Rotation(Rel):
    name, size = "ransac_relative_rotation", 3

    def scene(self, g, n, noise):
        R = rodrigues(unit(g.normal(size=3)) * g.uniform(0, 3))
        a = unit(g.normal(size=(n, 3)))
        return a, unit(a @ R.T + noise * g.normal(size=a.shape)), R

    def errors(self, m, a, b):
        return 1 - np.sum((a @ m.T) * b, axis=1)

    def dist(self, m, m0):
        return rot_angle(m @ m0.T)


class Absolute(Rel):
    name, size = "ransac_absolute_pose", 3

    def scene(self, g, n, noise):
        X = g.uniform(-2, 2, (n, 3)) + 4 * g.normal(size=3)
        R = rodrigues(g.normal(size=3) * 1.5)
        c = X.mean(axis=0) + R.T @ np.array([0.2, 0.1, -1.0]) * g.uniform(5, 7)
        Y = X @ R.T - R @ c
        return unit(unit(Y) + noise * g.normal(size=X.shape)), X, np.c_[R, -R @ c]

    def bad(self, g, a, b, k):
        return b.mean(axis=0) + g.uniform(-8, 8, (k, 3))

    def errors(self, m, a, b):
        return 1 - np.sum(unit(a) * unit(b @ m[:, :3].T + m[:, 3]), axis=1)

    def dist(self, m, m0):
        return rot_angle(m[:, :3] @ m0[:, :3].T) + np.linalg.norm(m[:, :3].T @ m[:, 3] - m0[:, :3].T @ m0[:, 3]) / 10


class Known(Absolute):
    name, size = "ransac_absolute_pose_known_rotation", 2

    def scene(self, g, n, noise):
        a, X, m = Absolute.scene(self, g, n, noise)
        return a @ m[:, :3], X, m[:, :3].T @ m[:, 3]

    def errors(self, m, a, b):
        m = np.ravel(m)
        return 1 - np.sum(unit(a) * unit(b + m), axis=1)

    def dist(self, m, m0):
        return np.linalg.norm(np.ravel(m) - m0) / 10


class Similarity(Rel):
    name, size, angular = "ransac_similarity", 3, False

    def scene(self, g, n, noise):
        a = g.uniform(-5, 5, (n, 3))
        if g.random() < 0.3:
            a[:, 2] = 0
        m = np.eye(4)
        m[:3, :3] = rodrigues(g.normal(size=3) * 2) * g.uniform(0.3, 3)
        m[:3, 3] = g.uniform(-20, 20, 3)
        return a, a @ m[:3, :3].T + m[:3, 3] + noise * g.normal(size=a.shape), m

    def bad(self, g, a, b, k):
        return b.mean(axis=0) + g.uniform(-15, 15, (k, 3))

    def errors(self, m, a, b):
        return np.linalg.norm(a @ m[:3, :3].T + m[:3, 3] - b, axis=1)

    def dist(self, m, m0):
        return np.abs(m - m0).max() / 30


class Line(Rel):
    name, size, angular = "ransac_line", 2, False

    def scene(self, g, n, noise):
        x, m = g.uniform(-5, 5, n), g.uniform(-3, 3, 2)
        return np.c_[x, m[0] * x + m[1] + noise * g.normal(size=n)], None, m

    def errors(self, m, a, b):
        m = np.ravel(m)
        return np.abs(a[:, 1] - m[0] * a[:, 0] - m[1])

    def dist(self, m, m0):
        return np.abs(np.ravel(m) - m0).max() / 5


MODELS = [Rel(), Ess(), Rotation(), Absolute(), Known(), Similarity(), Line()]


def params(case):
    p = pyrobust.RobustEstimatorParams()
    p.iterations, p.probability = case["iterations"], case["probability"]
    p.use_local_optimization, p.use_iteration_reduction = case["lo"], case["reduce"]
    return p


def run(model, a, b, thr, case):
    f = getattr(pyrobust, model.name)
    kind = getattr(pyrobust.RansacType, case["scoring"])
    return f(a, thr, params(case), kind) if b is None else f(a, b, thr, params(case), kind)


def problem(model, case):
    g = rng(case["seed"])
    n = model.size + case["n"]
    a, b, m0 = model.scene(g, n, case["noise"])
    k = int(case["outliers"] * n)
    bad = g.permutation(n)[:k]
    if b is None:
        a[bad, 1] += g.choice([-1, 1], k) * g.uniform(2, 10, k)
    else:
        b[bad] = model.bad(g, a, b, k)
    good = np.setdiff1d(np.arange(n), bad)
    return a, b, m0, good


ransac_s = {
    "seed": seeds, "model": st.sampled_from(range(len(MODELS))), "noise": st.sampled_from([0.0, 1e-4, 1e-3]),
    "scoring": st.sampled_from(["RANSAC", "MSAC", "LMedS"]), "lo": st.booleans(), "reduce": st.booleans(),
}


@CHECK.sub("consistency", st.fixed_dictionaries(dict(ransac_s, **{
    "n": st.one_of(st.integers(0, 5), st.integers(0, 40)), "outliers": st.sampled_from([0.0, 0.2, 0.5, 1.0]),
    "noise": st.sampled_from([0.0, 1e-4, 1e-3, 0.05]), "threshold": st.sampled_from([1e-5, 0.001, 0.004, 0.05, 1.5, 3.0]),
    "iterations": st.sampled_from([1, 3, 30]), "probability": st.sampled_from([0.5, 0.99])})), 900,
    rule="the best model has inliers and outliers")
def consistency(case, t):
    """Score and inliers are those of the returned model; runs are repeatable."""
    model = MODELS[case["model"]]
    a, b, m0, good = problem(model, case)
    thr = case["threshold"]
    if case["scoring"] == "LMedS" and thr < 1:
        raise Skip()
    r = run(model, a, b, thr, case)
    n = len(a)
    inliers = list(r.inliers_indices)
    check(inliers == sorted(set(inliers)) and all(0 <= i < n for i in inliers), "invalid inliers", inliers)
    m = np.array(r.lo_model)
    if r.score > 0 and inliers and np.all(np.isfinite(m)):
        e = model.errors(m, a, b)
        if np.any(np.isnan(e)):
            raise Skip()
        limit = 1 - math.cos(thr) if model.angular else thr
        if case["scoring"] == "LMedS":
            med = np.sort(np.abs(e))[n // 2]
            limit = limit * 1.4826 * med
            if med < 1e-13:
                raise Skip()
        slack = 1e-6 * limit + 1e-13
        got = np.zeros(n, bool)
        got[inliers] = True
        e = np.abs(e)
        check(np.all(got[e < limit - slack]), "an inlier of the model is missing", inliers, e, limit)
        check(not np.any(got[e > limit + slack]), "an outlier of the model is listed", inliers, e, limit)
        if case["scoring"] == "RANSAC":
            check(r.score == len(inliers), "score", r.score, len(inliers))
        elif case["scoring"] == "MSAC":
            cost = np.sum(np.minimum(e, limit) ** 2)
            check(abs(1 / r.score - 1e-8 - cost) < 1e-5 * cost + 1e-12, "score", 1 / r.score, cost)
        else:
            check(abs(1 / r.score - 1e-8 - med) < 1e-6 * med + 1e-13, "score", 1 / r.score, med)
        t.nontrivial(0 < len(inliers) < n)
        t.label(model.name)
        if not case["lo"]:
            check(np.array_equal(np.array(r.model), m), "optimized though told not to")
    r2 = run(model, a, b, thr, case)
    check(r2.score == r.score and list(r2.inliers_indices) == inliers, "a second run differs")
    if inliers:
        check(np.array_equal(np.array(r2.lo_model), m, equal_nan=True), "a second run has another model")
    if b is not None:
        try:
            run(model, a, b[:-1], thr, case)
        except RuntimeError:
            pass
        else:
            check(False, "samples of different sizes were accepted")


@CHECK.sub("recovery", st.fixed_dictionaries(dict(ransac_s, **{
    "n": st.integers(30, 60), "outliers": st.sampled_from([0.0, 0.1, 0.3, 0.45]), "threshold": st.sampled_from([0.006, 0.01]),
    "iterations": st.just(1000), "probability": st.just(0.999999)})), 400, rule="with outliers", shards=8)
def recovery(case, t):
    """The model behind a majority of the samples is found."""
    model = MODELS[case["model"]]
    if model.size == 5 or case["noise"]:
        case = dict(case, lo=True)
    a, b, m0, good = problem(model, case)
    thr = case["threshold"] if case["scoring"] != "LMedS" else 3.0
    if case["scoring"] == "LMedS" and (model.angular or case["noise"] == 0):
        raise Skip()  # the threshold is a multiple of the deviation there
    r = run(model, a, b, thr, case)
    if case["outliers"]:
        t.nontrivial()
    t.label(model.name)
    found = set(r.inliers_indices)
    # a lucky contaminated model may count as many inliers as the true one
    need = 0.85 if case["scoring"] != "LMedS" else 0.7
    if case["outliers"] > 0.3 and model.size == 5:
        need = 0.6
    if case["noise"] == 0 and model.size < 5:
        need = 0.95
    check(len(found & set(good.tolist())) >= need * len(good), "inliers found", len(found & set(good.tolist())), "of", len(good))
    limit = 1 - math.cos(thr) if model.angular else thr
    if case["scoring"] == "MSAC":
        e0 = np.abs(model.errors(m0, a, b))
        best = np.sum(np.minimum(e0, limit) ** 2)
        check(1 / r.score < 1.5 * best + 0.15 * len(a) * limit ** 2 + 2e-8, "cost", 1 / r.score, "true model", best)
    if (model.size == 5 and (case["scoring"] != "MSAC" or case["noise"])) or case["outliers"] > 0.3:
        return  # motions of two views that agree within the threshold may differ a lot
    d = model.dist(np.array(r.lo_model), m0)
    t.label("dist %g" % (10 ** math.ceil(math.log10(max(d, 1e-9)))))
    check(d < (0.1 if model.size < 5 else 0.3), "far from the true model", d)


def camera(g):
    c = pygeometry.Camera.create_perspective(g.uniform(0.5, 0.9), g.uniform(-0.02, 0.02), g.uniform(-0.02, 0.02))
    return c


@CHECK.sub("wrappers", st.fixed_dictionaries({
    "seed": seeds, "n": st.integers(30, 60), "noise": st.sampled_from([0.0, 3e-4]),
    "outliers": st.sampled_from([0.0, 0.2]), "which": st.integers(0, 3)}), 250, rule="with outliers")
def wrappers(case, t):
    """Poses of the second view in the first, and of the camera in the world."""
    g = rng(case["seed"])
    model = [Rel(), Rotation(), Absolute(), Known()][case["which"]]
    a, b, m, good = problem(model, case)
    args = (a, b, 0.004, 1000, 0.999)
    t.nontrivial(case["outliers"] > 0)
    if case["which"] == 0:
        out = np.array(multiview.relative_pose_ransac(*args))
        R, tr = m[:, :3], m[:, 3]
        check(out.shape == (3, 4), "shape")
        # motions that agree with the rays within the threshold may differ a bit
        check(rot_angle(out[:, :3] @ R) < 0.1, "rotation")
        check(np.linalg.norm(unit(out[:, 3]) - unit(-R.T @ tr)) < 0.5, "position", out[:, 3], -R.T @ tr)
    elif case["which"] == 1:
        out = np.array(multiview.relative_pose_ransac_rotation_only(*args))
        check(rot_angle(out @ m) < 0.01, "rotation")
    elif case["which"] == 2:
        out = np.array(multiview.absolute_pose_ransac(*args))
        check(out.shape == (3, 4), "shape")
        check(rot_angle(out[:, :3] @ m[:, :3]) < 0.02, "rotation")
        check(np.linalg.norm(out[:, 3] + m[:, :3].T @ m[:, 3]) < 0.2, "position", out[:, 3], -m[:, :3].T @ m[:, 3])
    else:
        out = np.array(multiview.absolute_pose_known_rotation_ransac(*args))
        check(np.allclose(out[:, :3], np.eye(3)), "rotation")
        check(np.linalg.norm(out[:, 3] + m) < 0.2, "position", out[:, 3], -m)


@CHECK.sub("bearing_inliers", st.fixed_dictionaries({
    "seed": seeds, "n": st.integers(1, 40), "kind": st.sampled_from(["front", "around", "plane"]),
    "noise": st.sampled_from([0.0, 0.003, 0.3]), "off": st.sampled_from([0.0, 0.01]),
    "threshold": st.sampled_from([0.002, 0.01, 1.0]), "parallel": st.booleans()}), 600,
    rule="some correspondences agree with the motion and some do not")
def bearing_inliers(case, t):
    """Correspondences that agree with a motion: both reprojections are close."""
    from opensfm import matching

    g = rng(case["seed"])
    b1, b2, R, tr, X = views(g, case["n"], case["kind"], case["noise"])
    n = case["n"]
    k = g.integers(0, n + 1)
    b2[:k] = unit(g.normal(size=(k, 3)))
    if case["parallel"]:
        b2[0] = R @ b1[0]
    R1, t1 = rodrigues(case["off"] * g.normal(size=3)) @ R, tr + case["off"] * g.normal(size=3)
    M = midpoint(b1, b2, R1, t1)
    e = np.maximum(np.linalg.norm(unit(M) - b1, axis=1), np.linalg.norm(unit(M @ R1.T + t1) - b2, axis=1))
    expected = np.nan_to_num(e, nan=9) < case["threshold"]
    sure = (np.abs(np.nan_to_num(e, nan=9) - case["threshold"]) > 1e-6) & (np.abs(1 - np.sum(b1 * (b2 @ R1), axis=1) ** 2 - 1e-10) > 1e-12)
    got = np.array(matching.compute_inliers_bearings(b1, b2, R1.T, -R1.T @ t1, case["threshold"]), bool)
    check(len(got) == n, "size")
    check(np.array_equal(got[sure], expected[sure]), "inliers", got, expected)
    t.nontrivial(0 < got.sum() < n)
    pose = pygeometry.Pose(rotvec_of(R1), t1)
    mask = np.array(matching.compute_inliers_bearing_epipolar(b1, b2, pose, case["threshold"]))
    check(mask.shape == (n, n), "mask shape", mask.shape)
    w, c = b2 @ R1, unit(-R1.T @ t1)

    def plane_angle(u, v):  # angle of each v to the plane of c and each u
        nrm = np.cross(np.broadcast_to(c, u.shape), u)
        s = np.linalg.norm(nrm, axis=1, keepdims=True)
        return np.abs((nrm / s) @ v.T), s[:, 0]

    a12, s1 = plane_angle(b1, w)
    a21, s2 = plane_angle(w, b1)
    ang = np.arcsin(np.minimum(1, (a12 + a21.T) / 2))
    sure = (np.abs(ang - case["threshold"]) > 1e-5) & (s1[:, None] > 1e-3) & (s2[None, :] > 1e-3)
    check(np.array_equal(mask[sure], (ang < case["threshold"])[sure]), "epipolar mask")


@CHECK.sub("two_views", st.fixed_dictionaries({
    "seed": seeds, "n": st.integers(30, 70), "kind": st.sampled_from(["front", "plane"]),
    "noise": st.sampled_from([0.0, 3e-4]), "outliers": st.sampled_from([0.0, 0.2]),
    "reversal": st.booleans(), "iterations": st.sampled_from([0, 10])}), 160, rule="with outliers")
def two_views(case, t):
    """Reconstruction of two views picks the motion with most inliers."""
    g = rng(case["seed"])
    c1, c2 = camera(g), camera(g)
    n, thr = case["n"], 0.006
    b1, b2, R, tr, X = views(g, n, case["kind"], case["noise"])
    if np.any(b2[:, 2] < 0.55) or np.any(b1[:, 2] < 0.55):
        raise Skip()  # so far off axis that the distortion folds
    k = int(case["outliers"] * n)
    b2[:k] = unit(np.c_[g.uniform(-1, 1, (k, 2)), np.ones(k)])
    p1, p2 = c1.project_many(b1), c2.project_many(b2)
    if k:
        t.nontrivial()
    out = reconstruction.two_view_reconstruction_general(p1, p2, c1, c2, thr, case["iterations"], case["reversal"], 1.0)
    rv, tv, inl, report = out
    check(rv is not None, "no motion found", report)
    Rg, tg = rodrigues(rv), np.array(tv)
    M = midpoint(b1, b2, Rg, tg)
    e = np.maximum(np.linalg.norm(unit(M) - b1, axis=1), np.linalg.norm(unit(M @ Rg.T + tg) - b2, axis=1))
    e = np.nan_to_num(e, nan=9)
    got = np.zeros(n, bool)
    got[np.array(inl, int)] = True
    sure = (np.abs(e - thr) > 1e-6) & (np.linalg.norm(np.cross(b1, b2 @ Rg), axis=1) > 1e-4)
    check(np.array_equal(got[sure], (e < thr)[sure]), "inliers of the motion", np.nonzero(got), e)
    counts = report["5_point_inliers"], report["plane_based_inliers"]
    check(len(inl) == max(counts), "not the motion with most inliers", len(inl), report)
    check(report["method"] == ("5_point" if counts[0] > counts[1] else "plane_based"), "method", report)
    # homographies are estimated from pixel positions: a plane motion is only
    # asked to explain the points of a plane
    check(got[k:].sum() >= 0.85 * (n - k), "only", got[k:].sum(), "of", n - k, "correspondences explained", report)
    t.label(report["method"])
    if case["kind"] == "front" and not case["reversal"]:
        d = rot_angle(Rg @ R.T) + np.linalg.norm(unit(tg) - unit(tr)) / 3
        t.label("dist %g" % (10 ** math.ceil(math.log10(max(d, 1e-9)))))
        check(d < 0.4, "motion", d, report)
    # the parts of it
    rp, tp, ip = reconstruction.two_view_reconstruction_plane_based(b1, b2, thr)
    check(len(ip) == counts[1], "plane-based inliers", len(ip), counts)
    if case["kind"] == "plane" and rp is not None:
        check(np.sum(np.array(ip) >= k) >= 0.85 * (n - k), "plane-based inliers", len(ip), "of", n - k)


@CHECK.sub("reversal", st.fixed_dictionaries({
    "seed": seeds, "n": st.integers(20, 50), "transposed": st.booleans(), "check": st.booleans(), "far": st.booleans(),
    "threshold": st.sampled_from([0.004, 0.015, 0.03]),
    "ratio": st.sampled_from([0.0, 0.3, 0.6, 0.9, 1.0]), "iterations": st.sampled_from([0, 0, 10])}), 400,
    rule="the reversed motion explains several correspondences too, or the motion is given reversed")
def reversal(case, t):
    """Of a motion and its inverse, the one that explains more rays is kept."""
    g = rng(case["seed"])
    thr, n = case["threshold"], case["n"]
    if case["far"]:  # hardly any perspective: both motions explain the rays
        R = rodrigues(unit(np.array([g.normal(), g.normal(), 0.1])) * g.uniform(0.1, 0.5))
        X = g.uniform(-1, 1, (n, 3)) + [0, 0, 10]
        tr = np.array([0, 0, 10.0]) - R @ [0, 0, 10.0]
        X, tr = X / np.linalg.norm(tr), unit(tr)
        b1, b2 = unit(X), unit(unit(X @ R.T + tr) + 1e-4 * g.normal(size=(n, 3)))
    else:
        b1, b2, R, tr, X = views(g, n, "around", 1e-4)
        tr = unit(tr)
    given = (R, tr) if case["transposed"] else (R.T, -R.T @ tr)

    def explained(R, tr):
        M = midpoint(b1, b2, R, tr)
        e = np.nan_to_num(np.maximum(np.linalg.norm(unit(M) - b1, axis=1), np.linalg.norm(unit(M @ R.T + tr) - b2, axis=1)), nan=9)
        return set(np.nonzero(e < thr)[0].tolist()), np.min(np.abs(e - thr)) < 1e-6 or np.any(1 - np.sum(b1 * (b2 @ R), axis=1) ** 2 < 1e-8)

    rv, tv, inl = reconstruction.two_view_reconstruction_5pt(b1, b2, *given, thr, case["iterations"], case["check"], case["ratio"])
    if rv is None:
        check(len(inl) == 0, "inliers without a motion")
    else:
        Rg, tg = rodrigues(rv), np.array(tv)
        mine, close = explained(Rg, tg)
        check(close or mine == set(np.array(inl).tolist()), "inliers of the motion", mine, inl)
    if case["iterations"] == 0:
        # the pose of the second view, as given and reversed
        found = []
        for Rc, tc in [given, (given[0].T, -given[0].T @ given[1])][:2 if case["check"] else 1]:
            e, close = explained(Rc.T, -Rc.T @ tc)
            if close or len(e) == 5:
                raise Skip()
            if len(e) > 5:
                found.append((len(e), Rc.T, -Rc.T @ tc))
        if len(found) == 2:
            t.nontrivial()
            ratio = min(found[0][0], found[1][0]) / max(found[0][0], found[1][0])
            t.label("two")
            if ratio > case["ratio"]:
                t.label("undecidable")
                check(rv is None, "an undecidable motion was returned")
                return
            if found[0][0] == found[1][0]:
                return
        if not found:
            check(rv is None, "a motion nothing agrees with was returned")
            return
        best = max(found, key=lambda f: f[0])
        check(rv is not None, "no motion was returned")
        check(np.allclose(Rg, best[1], atol=1e-7) and np.allclose(tg, best[2], atol=1e-7), "not the motion that explains most", found, rv, tv)
        t.nontrivial(case["transposed"])


@CHECK.sub("rotation_only", st.fixed_dictionaries({
    "seed": seeds, "n": st.integers(10, 50), "noise": st.sampled_from([0.0, 3e-4]),
    "outliers": st.sampled_from([0.0, 0.3]), "translation": st.sampled_from([0.0, 0.5])}), 250, rule="with outliers")
def rotation_only(case, t):
    """Rotation between two views and the correspondences it explains."""
    g = rng(case["seed"])
    c1, c2 = camera(g), camera(g)
    n, thr = case["n"], 0.004
    R = rodrigues(unit(g.normal(size=3)) * 0.3 * g.random())
    X = np.c_[g.uniform(-1, 1, (n, 2)), g.uniform(1.5, 3, n)] * 2
    Y = X @ R.T + case["translation"] * unit(g.normal(size=3))
    k = int(case["outliers"] * n)
    Y[:k] = np.c_[g.uniform(-1, 1, (k, 2)), np.ones(k)]
    b1, b2 = unit(X), unit(unit(Y) + case["noise"] * g.normal(size=X.shape))
    if np.any(b2[:, 2] < 0.55) or np.any(b1[:, 2] < 0.55):
        raise Skip()
    p1, p2 = c1.project_many(b1), c2.project_many(b2)
    rv, inl = reconstruction.two_view_reconstruction_rotation_only(p1, p2, c1, c2, thr)
    Rg = rodrigues(rv)
    e = np.linalg.norm(b1 @ Rg.T - b2, axis=1)
    got = np.zeros(n, bool)
    got[np.array(inl, int)] = True
    sure = np.abs(e - thr) > 1e-6
    check(np.array_equal(got[sure], (e < thr)[sure]), "inliers of the rotation", e, inl)
    if case["translation"] == 0:
        t.nontrivial(k > 0)
        check(rot_angle(Rg @ R.T) < 0.005, "rotation", rot_angle(Rg @ R.T))
        check(got[k:].all(), "an exact correspondence is not explained")


@CHECK.sub("similarity_fit", st.fixed_dictionaries({
    "seed": seeds, "n": st.integers(8, 40), "noise": st.sampled_from([0.0, 0.01]),
    "outliers": st.sampled_from([0.0, 0.3]), "dim": st.sampled_from([2, 3]), "threshold": st.sampled_from([0.1, 1.0])}), 120,
    rule="with outliers")
def similarity_fit(case, t):
    """Similarity between two sets of points and its inliers."""
    g = rng(case["seed"])
    np.random.seed(case["seed"] % 2**32)
    n, d = case["n"], case["dim"]
    a = g.uniform(-5, 5, (n, d))
    s = g.uniform(0.3, 3)
    if d == 3:
        R = rodrigues(g.normal(size=3) * 2)
    else:
        w = g.uniform(-3, 3)
        R = np.array([[math.cos(w), -math.sin(w)], [math.sin(w), math.cos(w)]])
    tr = g.uniform(-20, 20, d)
    b = s * a @ R.T + tr + case["noise"] * g.normal(size=a.shape)
    k = int(case["outliers"] * n)
    b[:k] += unit(g.normal(size=(k, d))) * g.uniform(6, 20, (k, 1))
    T, inl = multiview.fit_similarity_transform(a, b, 300, case["threshold"])
    t.nontrivial(k > 0)
    e = np.linalg.norm(a @ T[:d, :d].T + T[:d, d] - b, axis=1)
    sure = np.abs(e - case["threshold"]) > 1e-7
    got = np.zeros(n, bool)
    got[np.array(inl, int)] = True
    check(np.array_equal(got[sure], (e < case["threshold"])[sure]), "inliers of the transform", e, inl)
    check(got[k:].all(), "an exact correspondence is not explained")
    gs, gR, gt = multiview.decompose_similarity_transform(T)
    check(np.allclose(gR @ gR.T, np.eye(d), atol=1e-7) and np.linalg.det(gR) > 0, "not a rotation")
    tol = 1e-6 if not case["noise"] and got.sum() == n - k else 0.2
    check(abs(gs - s) < tol * s and np.abs(gR - R).max() < tol and np.abs(gt - tr).max() < 30 * tol, "not the similarity")
