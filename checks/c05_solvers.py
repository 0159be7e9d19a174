"""C05: minimal and least-squares solvers of camera motion."""

import math

import numpy as np
from gen import rng, rodrigues, rot_angle, seeds, st
from harness import Check, Skip, check
from opensfm import multiview, pygeometry

CHECK = Check("C05")
CHECK.assumptions = [
    "the five-point, three-point and iterative pose solvers are judged on batches: the share of scenes solved",
]


def unit(v):
    return v / np.linalg.norm(v, axis=-1, keepdims=True)


def skew(t):
    return np.array([[0, -t[2], t[1]], [t[2], 0, -t[0]], [-t[1], t[0], 0]])


def two_views(g, n, kind, angle=0.6, noise=0.0):
    """Bearings of n points in two cameras: y = R x + t."""
    if kind == "around":
        X = unit(g.normal(size=(n, 3))) * g.uniform(3, 8, (n, 1))
    elif kind == "plane":
        X = np.c_[g.uniform(-3, 3, (n, 2)), np.zeros(n)] @ rodrigues(0.4 * g.normal(size=3)).T + [0, 0, 6]
    else:
        X = np.c_[g.uniform(-3, 3, (n, 2)), g.uniform(3, 9, n)]
    R = rodrigues(unit(g.normal(size=3)) * angle * g.random())
    t = unit(g.normal(size=3)) * g.uniform(0.5, 1.5)
    Y = X @ R.T + t
    b1, b2 = unit(X), unit(Y)
    if noise:
        b1, b2 = unit(b1 + noise * g.normal(size=b1.shape)), unit(b2 + noise * g.normal(size=b2.shape))
    return b1, b2, R, t, X


def e_error(E, E0):
    E, E0 = E / np.linalg.norm(E), E0 / np.linalg.norm(E0)
    return min(np.linalg.norm(E - E0), np.linalg.norm(E + E0))


two_s = st.fixed_dictionaries({"seed": seeds, "kind": st.sampled_from(["front", "around"]), "n": st.integers(0, 20)})


@CHECK.sub("five_points", st.tuples(seeds, st.sampled_from(["front", "around"])), 40,
           rule="40 scenes, every one with a solution set")
def five_points(case, t):
    """The essential matrix of five exact correspondences is among the solutions."""
    seed, kind = case
    g = rng(seed)
    found = good = total = 0
    for _ in range(40):
        b1, b2, R, tr, X = two_views(g, 5, kind)
        E0 = skew(tr) @ R
        Es = [np.array(E) for E in pygeometry.essential_five_points(b1, b2)]
        check(len(Es) <= 10, "more than ten solutions")
        for E in Es:
            check(abs(np.linalg.norm(E) - 1) < 1e-9, "not normalized")
            check(np.max(np.abs(np.sum(b2 * (b1 @ E.T), axis=1))) < 1e-9, "a solution misses the correspondences")
            s = np.linalg.svd(E)[1]
            total += 1
            good += s[0] - s[1] < 1e-4 and s[2] < 1e-4
        found += any(e_error(E, E0) < 1e-4 for E in Es)
    t.nontrivial(total)
    check(found >= 34, "true matrix found in", found, "of 40 scenes")
    check(good >= 0.8 * total, "only", good, "of", total, "solutions are essential matrices")


@CHECK.sub("essential_n", two_s, 600, rule="the system is well conditioned")
def essential_n(case, t):
    """Linear solution from nine or more points, and the pose out of it."""
    g = rng(case["seed"])
    n = 9 + case["n"]
    b1, b2, R, tr, X = two_views(g, n, case["kind"])
    E0 = skew(tr) @ R
    A = np.stack([np.outer(y, x).ravel() for x, y in zip(b1, b2)])
    s = np.linalg.svd(A)[1]
    if s[7] / s[0] < 1e-5:
        raise Skip()
    t.nontrivial()
    Es = pygeometry.essential_n_points(b1, b2)
    check(len(Es) == 1, "no solution", len(Es))
    E = np.array(Es[0])
    check(e_error(E, E0) < 1e-9 / (s[7] / s[0]), "wrong matrix", e_error(E, E0))
    d = np.linalg.svd(E)[1]
    check(abs(d[0] - d[1]) < 1e-9 and d[2] < 1e-9, "not an essential matrix", d)
    for sign in (1, -2.5):
        pose = np.array(pygeometry.relative_pose_from_essential(sign * E0, b1, b2))
        check(np.allclose(pose[:, :3], R, rtol=0, atol=1e-7), "rotation from essential", pose[:, :3], R)
        check(np.allclose(pose[:, 3], unit(tr), rtol=0, atol=1e-7), "translation from essential", pose[:, 3], unit(tr))
    check(len(pygeometry.essential_n_points(b1[:7], b2[:7])) == 0, "an underdetermined system was solved")


@CHECK.sub("decomposition", st.fixed_dictionaries({
    "seed": seeds, "kind": st.sampled_from(["front", "around"]), "n": st.integers(1, 12),
    "noise": st.sampled_from([0.001, 0.03, 0.3, 2.0]), "far": st.booleans()}), 400,
    rule="the two best motions differ by less than one point")
def decomposition(case, t):
    """Of the four motions of an essential matrix, the one closest to the rays."""
    g = rng(case["seed"])
    b1, b2, R, tr, X = two_views(g, case["n"], case["kind"])
    if case["far"]:
        b2 = b1 @ R.T
    b1, b2 = (unit(b + case["noise"] * g.normal(size=b.shape)) for b in (b1, b2))
    E = skew(unit(tr)) @ R
    u, _, vt = np.linalg.svd(E)
    u, vt = u * np.array([1, 1, np.linalg.det(u)]), vt * np.array([[1], [1], [np.linalg.det(vt)]])
    W = np.array([[0, -1, 0], [1, 0, 0], [0, 0, 1.0]])

    def score(R, tr):
        c, w = -R.T @ tr, b2 @ R
        p = np.sum(b1 * w, axis=1)
        d = 1 - p * p
        if np.min(d) < 1e-9:
            raise Skip()
        M = (((b1 @ c - p * (w @ c)) / d)[:, None] * b1 + c + ((p * (b1 @ c) - w @ c) / d)[:, None] * w) / 2
        return float(np.sum(np.sum(unit(M) * b1, axis=1) + np.sum(unit(M - c) * w, axis=1)) / 2)

    scores = sorted(score(u @ w @ vt, s * u[:, 2]) for w in (W, W.T) for s in (1, -1))
    if scores[-1] <= 1e-9:
        return
    if scores[-1] - scores[-2] < 1:
        t.nontrivial()
    out = np.array(pygeometry.relative_pose_from_essential(E, b1, b2))
    check(np.allclose(out[:, :3] @ out[:, :3].T, np.eye(3), atol=1e-8) and np.linalg.det(out[:, :3]) > 0, "not a rotation")
    check(abs(score(out[:, :3], out[:, 3]) - scores[-1]) < 1e-7, "a worse motion was chosen", score(out[:, :3], out[:, 3]), scores)


@CHECK.sub("pose_refinement", st.fixed_dictionaries({
    "seed": seeds, "n": st.integers(10, 25), "off": st.sampled_from([0.0, 0.003, 0.01, 0.02]),
    "iterations": st.sampled_from([0, 20, 100]), "unnormalized": st.booleans()}), 80,
    rule="20 refinements from perturbed poses")
def pose_refinement(case, t):
    """Refinement of the pose of two views that look at the same things.

    It keeps a valid rotation, does not move without iterations or from the
    exact solution, and takes most perturbed poses closer to the truth (the
    optimiser stops early by design, so a single start may not improve).
    """
    g = rng(case["seed"])
    better = 0
    for k in range(20):
        b1, b2, R, tr, X = two_views(g, case["n"], "around")
        tr = unit(tr)
        R0 = rodrigues(case["off"] * g.normal(size=3)) @ R
        t0 = unit(tr + case["off"] * g.normal(size=3))
        s = g.uniform(0.5, 2, (case["n"], 1)) if case["unnormalized"] else 1.0
        if k % 2:
            out = np.array(multiview.relative_pose_optimize_nonlinear(b1 * s, b2 * s, -R0.T @ t0, R0.T, case["iterations"]))
            R1 = out[:, :3].T
            t1 = -R1 @ out[:, 3]
        else:
            out = np.array(pygeometry.relative_pose_refinement(np.c_[R0, t0], b1 * s, b2 * s, case["iterations"]))
            R1, t1 = out[:, :3], out[:, 3]
        check(np.allclose(R1 @ R1.T, np.eye(3), atol=1e-8) and np.linalg.det(R1) > 0, "not a rotation")
        if case["iterations"] == 0:
            check(np.allclose(R1, R0, atol=1e-8) and np.allclose(t1, t0, atol=1e-8), "moved without iterations")
        e0 = rot_angle(R0 @ R.T) + np.linalg.norm(t0 - tr)
        e1 = rot_angle(R1 @ R.T) + np.linalg.norm(unit(t1) - tr)
        if case["off"] == 0:
            check(e1 < 1e-5, "left the exact solution", e1)
        better += e1 < 0.995 * e0
    if case["off"] > 0 and case["iterations"] > 0:
        t.nontrivial()
        t.label("better %d" % (better // 4 * 4))
        check(better >= 10, "only", better, "of 20 poses improved")


def scene(g, n, kind):
    """Points in the world and a camera that sees them: y = R X + t."""
    if kind == "plane":
        X = np.c_[g.uniform(-3, 3, (n, 2)), np.zeros(n)] @ rodrigues(g.normal(size=3)).T
    else:
        X = g.uniform(-2, 2, (n, 3))
    X = X + g.normal(size=3) * 5
    R = rodrigues(g.normal(size=3) * 1.5)
    c = X.mean(axis=0) + R.T @ np.array([0.3, -0.2, -1.0]) * g.uniform(6, 9)
    t = -R @ c
    return X, R, t, unit(X @ R.T + t)


@CHECK.sub("three_points", st.tuples(seeds, st.booleans()), 40, rule="100 scenes")
def three_points(case, t):
    """The true pose is among the solutions of three exact correspondences."""
    seed, scaled = case
    g = rng(seed)
    found = 0
    for _ in range(100):
        X, R, tr, b = scene(g, 3, "cloud")
        k = g.uniform(0.5, 2, (3, 1)) if scaled else 1.0
        Rts = [np.array(x) for x in pygeometry.absolute_pose_three_points(b * k, X)]
        check(len(Rts) <= 4, "more than four solutions")
        for Rt in Rts:
            check(np.all(np.isfinite(Rt)), "a solution is not finite", Rt)
            check(np.allclose(Rt[:, :3] @ Rt[:, :3].T, np.eye(3), atol=1e-7) and np.linalg.det(Rt[:, :3]) > 0, "not a rotation")
        found += any(np.abs(Rt - np.c_[R, tr]).max() < 1e-4 * (1 + np.abs(tr).max()) for Rt in Rts)
    t.nontrivial()
    check(found >= 92, "true pose found in", found, "of 100 scenes")


@CHECK.sub("n_points", st.tuples(seeds, st.sampled_from(["cloud", "plane"]), st.integers(6, 16)), 60, rule="50 scenes")
def n_points(case, t):
    """Iterative pose from many points, of solid and of planar scenes."""
    seed, kind, n = case
    g = rng(seed)
    found = 0
    for _ in range(50):
        X, R, tr, b = scene(g, n, kind)
        Rt = np.array(pygeometry.absolute_pose_n_points(b, X))
        check(np.allclose(Rt[:, :3] @ Rt[:, :3].T, np.eye(3), atol=1e-7) and np.linalg.det(Rt[:, :3]) > 0, "not a rotation")
        found += rot_angle(Rt[:, :3] @ R.T) < 0.02
    t.nontrivial()
    check(found >= (40 if kind == "cloud" else 25), kind, "pose found in", found, "of 50 scenes")


@CHECK.sub("known_rotation", st.tuples(seeds, st.integers(2, 20), st.sampled_from([0.0, 1e-3])), 400, rule="always")
def known_rotation(case, t):
    """Translation is the least-squares fit of the points to their rays."""
    seed, n, noise = case
    g = rng(seed)
    X, R, tr, b = scene(g, n, "cloud")
    Xr = X @ R.T
    b = unit(b + noise * g.normal(size=b.shape))
    got = np.array(pygeometry.absolute_pose_n_points_known_rotation(b * g.uniform(0.5, 2, (n, 1)), Xr))
    A = sum(np.eye(3) - np.outer(v, v) for v in b)
    r = -sum((np.eye(3) - np.outer(v, v)) @ x for v, x in zip(b, Xr))
    ref = np.linalg.solve(A, r)
    c = np.linalg.cond(A)
    if c > 1e7:
        raise Skip()
    t.nontrivial()
    check(np.linalg.norm(got - ref) < 1e-12 * c * (1 + np.linalg.norm(ref)) + 1e-10 * c, got, ref)
    if noise == 0:
        check(np.linalg.norm(got - tr) < 1e-8 * c, got, tr)


@CHECK.sub("rotation", st.tuples(seeds, st.integers(3, 20), st.sampled_from(["all", "narrow", "circle"])), 600, rule="always")
def rotation(case, t):
    """A pure rotation is recovered, from planar sets too."""
    seed, n, kind = case
    g = rng(seed)
    b = unit(g.normal(size=(n, 3)))
    if kind == "narrow":
        b = unit(np.c_[0.3 * g.normal(size=(n, 2)), np.ones(n)])
    elif kind == "circle":
        a = g.uniform(0, 2 * math.pi, n)
        b = unit(np.c_[np.cos(a), np.sin(a), np.full(n, 0.7)])
    b = b @ rodrigues(g.normal(size=3)).T
    c = b - b.mean(axis=0)
    s = np.linalg.svd(c)[1]
    if s[1] < 1e-3:
        raise Skip()
    t.nontrivial()
    R = rodrigues(unit(g.normal(size=3)) * g.uniform(0, 3.1))
    got = np.array(pygeometry.relative_rotation_n_points(b, b @ R.T))
    check(np.allclose(got, R, rtol=0, atol=1e-11 / s[1] ** 2 + 1e-9), "rotation", got, R)
