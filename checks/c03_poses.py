"""C03: rotations, poses, similarities and angle conventions."""

import copy
import math
import pickle

import numpy as np
from gen import grid, rodrigues, rot_angle, rotvec_of, st, ugrid, vec
from harness import Check, check
from opensfm import geometry, multiview, pygeometry, transformations, upright

CHECK = Check("C03")
CHECK.assumptions = [
    "pan/tilt/roll are tested up to 89 degrees of tilt, omega/phi/kappa up to 89 degrees of phi",
]

# rotation vectors of up to 3.1 rad, and tiny ones
rot_s = st.one_of(
    vec(3, 1.0),
    st.tuples(vec(3, 1.0), grid(0.0, 3.1)).map(lambda a: [float(x) for x in _scaled(*a)]),
    st.tuples(vec(3, 1.0), st.sampled_from([1e-9, 1e-6, 1e-3])).map(lambda a: [float(x) for x in _scaled(*a)]),
)
tr_s = st.one_of(vec(3, 1.0), vec(3, 1000.0), st.just([0.0, 0.0, 0.0]))


def _scaled(v, a):
    n = np.linalg.norm(v)
    return np.zeros(3) if n == 0 else np.array(v) / n * a


def T44(R, t):
    T = np.eye(4)
    T[:3, :3], T[:3, 3] = R, t
    return T


def verify_pose(p, R, t, what):
    tol = 1e-9 * (1 + np.linalg.norm(t))
    o = -R.T @ t
    C = T44(R.T, o)

    def same(got, want, name, tol=tol):
        got = np.array(got)
        check(got.shape == np.shape(want), what, name, "shape", got.shape)
        check(np.allclose(got, want, rtol=0, atol=tol), what, name, got, want)

    same(p.get_world_to_cam(), T44(R, t), "world to cam")
    same(p.get_cam_to_world(), C, "cam to world")
    same(p.get_rotation_matrix(), R, "rotation matrix")
    same(p.get_R_world_to_cam(), R, "R world to cam")
    same(p.get_R_cam_to_world(), R.T, "R cam to world")
    same(p.get_t_world_to_cam(), t, "t world to cam")
    same(p.translation, t, "translation")
    same(p.get_t_cam_to_world(), o, "t cam to world")
    same(p.get_origin(), o, "origin")
    same(p.get_Rt(), T44(R, t)[:3], "Rt")
    for name, v, want in (
        ("rotation", p.rotation, R), ("min world to cam", p.get_R_world_to_cam_min(), R),
        ("min cam to world", p.get_R_cam_to_world_min(), R.T),
    ):
        same(rodrigues(v), want, name, 1e-7)
        check(np.linalg.norm(v) <= math.pi + 1e-7, what, name, "is longer than pi")
    X = np.array([[0.3, -2.0, 5.0], [10.0, 0.0, -1.0]])
    same(p.transform_many(X), X @ R.T + t, "transform_many", 10 * tol)
    same([p.transform(x) for x in X], X @ R.T + t, "transform", 10 * tol)
    same(p.transform_inverse_many(X), (X - t) @ R, "transform_inverse_many", 10 * tol)
    same([p.transform_inverse(x) for x in X], (X - t) @ R, "transform_inverse", 10 * tol)


op_s = st.tuples(
    st.sampled_from([
        "w2c_4", "w2c_Rt", "w2c_rt", "c2w_4", "c2w_Rt", "c2w_rt", "origin", "rotation", "translation",
        "matrix", "copy", "deepcopy", "pickle", "inverse", "compose", "relative", "compose_left",
    ]),
    rot_s, tr_s,
)


@CHECK.sub("history", st.tuples(rot_s, tr_s, st.sampled_from(["vec", "mat"]), st.lists(op_s, max_size=8)), 1000,
           rule="at least three operations on a pose that is not the identity")
def history(case, t):
    """All views of a pose agree with (R, t) after any sequence of changes."""
    r0, t0, how, ops = case
    R, tr = rodrigues(r0), np.array(t0)
    p = pygeometry.Pose(np.array(r0) if how == "vec" else R, tr)
    verify_pose(p, R, tr, "made")
    t.nontrivial(len(ops) >= 3)
    for name, r, x in ops:
        r, x, Q = np.array(r), np.array(x), rodrigues(r)
        t.label(name)
        old = None
        if name == "w2c_4":
            p.set_from_world_to_cam(T44(Q, x))
            R, tr = Q, x
        elif name == "w2c_Rt":
            p.set_from_world_to_cam(Q, x)
            R, tr = Q, x
        elif name == "w2c_rt":
            p.set_from_world_to_cam(r, x)
            R, tr = Q, x
        elif name == "c2w_4":
            p.set_from_cam_to_world(T44(Q, x))
            R, tr = Q.T, -Q.T @ x
        elif name == "c2w_Rt":
            p.set_from_cam_to_world(Q, x)
            R, tr = Q.T, -Q.T @ x
        elif name == "c2w_rt":
            p.set_from_cam_to_world(r, x)
            R, tr = Q.T, -Q.T @ x
        elif name == "origin":
            p.set_origin(x)
            tr = -R @ x
        elif name == "rotation":
            p.rotation = r
            R = Q
        elif name == "translation":
            p.translation = x
            tr = x
        elif name == "matrix":
            p.set_rotation_matrix(Q)
            R = Q
        elif name in ("copy", "deepcopy", "pickle"):
            old, oR, ot = p, R, tr
            p = {"copy": copy.copy, "deepcopy": copy.deepcopy,
                 "pickle": lambda y: pickle.loads(pickle.dumps(y))}[name](p)
            verify_pose(p, R, tr, name)
            p.set_from_world_to_cam(Q, x)
            R, tr = Q, x
        else:
            q = pygeometry.Pose(Q, x)
            old, oR, ot = p, R, tr
            if name == "inverse":
                p = p.inverse()
                R, tr = R.T, -R.T @ tr
            elif name == "compose":
                p = p.compose(q)
                R, tr = R @ Q, R @ x + tr
            elif name == "compose_left":
                p = q.compose(p)
                R, tr = Q @ R, Q @ tr + x
            else:
                p = p.relative_to(q)
                R, tr = R @ Q.T, tr - R @ Q.T @ x
        verify_pose(p, R, tr, name)
        if old is not None:
            verify_pose(old, oR, ot, name + " (argument)")


@CHECK.sub("identity", st.tuples(rot_s, tr_s), 200, rule="the pose is not the identity")
def identity(case, t):
    r, x = case
    p = pygeometry.Pose(np.array(r), np.array(x))
    e = pygeometry.Pose()
    verify_pose(e, np.eye(3), np.zeros(3), "default")
    check(e.is_identity(1e-15), "identity")
    off = np.linalg.norm(r) + np.linalg.norm(x)
    t.nontrivial(off > 1e-3)
    far = max(np.linalg.norm(r), np.linalg.norm(x))
    if far > 1e-8:
        check(not p.is_identity(far * 0.9), "not the identity")
        check(p.is_identity(far * 1.1), "close to the identity")
    verify_pose(p.compose(p.inverse()), np.eye(3), np.zeros(3) + 0 * np.array(x), "p p^-1") if off < 50 else None
    if np.linalg.norm(x) == 0:
        verify_pose(pygeometry.Pose(np.array(r)), rodrigues(r), np.zeros(3), "rotation only")
        verify_pose(pygeometry.Pose(rodrigues(r)), rodrigues(r), np.zeros(3), "rotation only")


@CHECK.sub("similarity", st.tuples(rot_s, tr_s, grid(0.1, 10.0), st.lists(
    st.tuples(st.sampled_from(["r", "t", "s"]), rot_s, tr_s, grid(0.1, 10.0)), max_size=4), vec(3, 10.0)), 500,
    rule="the scale is not one")
def similarity(case, t):
    r, x, s, ops, p = case
    R, x, p = rodrigues(r), np.array(x), np.array(p)
    t.nontrivial(s != 1)
    S = pygeometry.Similarity(np.array(r), x, s)
    for name, r2, x2, s2 in [("", None, None, None)] + ops:
        if name == "r":
            S.rotation = np.array(r2)
            R = rodrigues(r2)
        elif name == "t":
            S.translation = np.array(x2)
            x = np.array(x2)
        elif name == "s":
            S.scale = s2
            s = s2
        tol = 1e-8 * (1 + np.linalg.norm(x))
        check(S.scale == s and np.allclose(S.translation, x, atol=tol), name, "scale, translation")
        check(np.allclose(S.get_rotation_matrix(), R, atol=1e-9), name, "rotation matrix")
        check(np.allclose(rodrigues(S.rotation), R, atol=1e-7), name, "rotation vector")
        want = s * R @ p + x
        check(np.allclose(S.transform(p), want, rtol=0, atol=tol), name, "transform", S.transform(p), want)
        inv = S.inverse()
        check(np.allclose(inv.transform(want), p, rtol=0, atol=tol * 30), name, "inverse", inv.transform(want), p)
        check(abs(inv.scale - 1 / s) < 1e-9 / s and np.allclose(inv.get_rotation_matrix(), R.T, atol=1e-7), name, "inverse parts")
        M = np.eye(4)
        M[:3, :3], M[:3, 3] = s * R, x
        ds, dA, db = multiview.decompose_similarity_transform(M)
        check(abs(ds - s) < 1e-9 * s and np.allclose(dA, R, atol=1e-9) and np.allclose(db, x), "decompose")


def Rx(a):
    return rodrigues([a, 0, 0])


def Ry(a):
    return rodrigues([0, a, 0])


def Rz(a):
    return rodrigues([0, 0, a])


def same_angle(a, b, tol=1e-7):
    return abs((a - b + math.pi) % (2 * math.pi) - math.pi) < tol


pi = math.pi
lim = math.radians(89.0)


@CHECK.sub("angles", st.tuples(ugrid(pi * 0.999), ugrid(lim), ugrid(pi * 0.999)), 1500,
           rule="three angles that are not zero")
def angles(case, t):
    """Angle triples convert to rotations and back."""
    a, b, c = case
    t.nontrivial(all(abs(x) > 0.01 for x in case))
    R = np.array(geometry.rotation_from_ptr(a, b, c))
    check(np.allclose(R, Rz(c) @ Rx(b + pi / 2) @ Rz(a), atol=1e-9), "rotation_from_ptr")
    # pan: compass heading of the optical axis; tilt: its angle below the horizon
    z = R[2]
    check(same_angle(math.atan2(z[0], z[1]), a) and abs(math.asin(np.clip(-z[2], -1, 1)) - b) < 1e-6, "pan and tilt")
    got = geometry.ptr_from_rotation(R)
    check(all(same_angle(x, y, 1e-6) for x, y in zip(got, case)), "ptr_from_rotation", got, case)
    R2 = np.array(geometry.rotation_from_ptr_v2(a, b, c))
    check(np.allclose(R2, Rz(c) @ Rx(b + pi / 2) @ Rz(a), atol=1e-9), "rotation_from_ptr_v2")
    got = geometry.ptr_from_rotation_v2(R2)
    check(all(same_angle(x, y, 1e-6) for x, y in zip(got, case)), "ptr_from_rotation_v2", got, case)
    check(np.allclose(geometry.rotation_from_ptr_v2(*got), R2, atol=1e-8), "v2 again")
    R3 = np.array(geometry.rotation_from_opk(a, b, c))
    want = (Rx(a) @ Ry(b) @ Rz(c) @ np.diag([1, -1, -1])).T
    check(np.allclose(R3, want, atol=1e-9), "rotation_from_opk", R3, want)
    got = geometry.opk_from_rotation(R3)
    check(all(same_angle(x, y, 1e-6) for x, y in zip(got, case)), "opk_from_rotation", got, case)
    v = np.array([a, b, c])
    check(np.allclose(geometry.rotation_from_angle_axis(v), rodrigues(v), atol=1e-9), "angle axis")


@CHECK.sub("up_compass", st.tuples(vec(3, 5.0), ugrid(179.0), rot_s), 500, rule="the up vector is not vertical")
def up_compass(case, t):
    up, angle, r = case
    n = np.linalg.norm(up)
    if n < 1e-2 or np.hypot(up[0], up[1]) < 1e-3 * n:
        up = [0.0, 0.0, 1.0 if up[2] >= 0 else -1.0]
        n = 1.0
    flat = np.hypot(up[0], up[1]) > 0
    t.nontrivial(flat)
    R = np.array(multiview.rotation_matrix_from_up_vector_and_compass(list(up), angle))
    check(np.allclose(R @ R.T, np.eye(3), atol=1e-9) and abs(np.linalg.det(R) - 1) < 1e-9, "not a rotation")
    check(np.allclose(multiview.camera_up_vector(R), np.array(up) / n, atol=1e-9), "up")
    if flat:
        got = multiview.camera_compass_angle(R)
        check(abs((got - angle + 180) % 360 - 180) < 1e-6, "compass", got, angle)
    Q = rodrigues(r)
    check(np.allclose(multiview.camera_up_vector(Q), Q @ [0, 0, 1.0], atol=1e-12), "camera up")
    axis = Q.T @ [0, 0, 1.0]
    if np.hypot(axis[0], axis[1]) > 1e-3:
        check(abs(multiview.camera_compass_angle(Q) - math.degrees(math.atan2(axis[0], axis[1]))) < 1e-7, "camera compass")


@CHECK.sub("upright", st.tuples(st.sampled_from([1, 3, 6, 8]), st.integers(1, 5000), st.integers(1, 5000),
                                st.lists(st.tuples(ugrid(0.5), ugrid(0.5)), min_size=1, max_size=4),
                                st.one_of(st.none(), st.tuples(st.integers(1, 999), st.integers(1, 999)))), 400,
           rule="an orientation other than 1, or an image that is not square")
def upright_(case, t):
    """Normalized coordinates in the stored image map to the displayed image."""
    o, w, h, pts, new = case
    t.nontrivial(o != 1 or w != h)
    s = max(w, h)
    got = upright.opensfm_to_upright(np.array(pts), w, h, o, *(new or (None, None)))
    for g, (x, y) in zip(got, pts):
        u, v = (x * s + w / 2) / w, (y * s + h / 2) / h
        # rotate the unit square as a viewer does for the EXIF orientation
        U, V = {1: (u, v), 3: (1 - u, 1 - v), 6: (1 - v, u), 8: (v, 1 - u)}[o]
        W, H = (w, h) if o in (1, 3) else (h, w)
        if new:
            W, H = new
        check(np.allclose(g, (U * W, V * H), rtol=1e-9, atol=1e-6), "upright", g, (U * W, V * H))


@CHECK.sub("helpers", st.tuples(rot_s, vec(3, 3.0), vec(3, 3.0), grid(0.3, 3.0), grid(0.3, 3.0), ugrid(0.5),
                                vec(9, 0.05)), 500, rule="the rotation is not the identity")
def helpers(case, t):
    """Matrix factorizations and small linear algebra helpers."""
    r, x, y, fx, fy, c, noise = case
    R, x, y = rodrigues(r), np.array(x), np.array(y)
    t.nontrivial(np.linalg.norm(r) > 0.01)
    K = np.array([[fx, 0.1 * c, c], [0, fy, -c], [0, 0, 1]])
    P = multiview.P_from_KRt(K, R, x)
    check(np.allclose(P, K @ np.hstack([R, x[:, None]]), atol=1e-12), "P")
    for lam in (1.0, 2.5, -0.7):
        K2, R2, t2 = multiview.KRt_from_P(lam * P)
        check(np.allclose(K2, K, atol=1e-7) and np.allclose(R2, R, atol=1e-7) and np.allclose(t2, x, atol=1e-6),
              "KRt", lam, K2, R2, t2)
    A, Q = multiview.rq(P[:, :3])
    check(np.allclose(A @ Q, P[:, :3], atol=1e-9) and np.allclose(np.tril(A, -1), 0, atol=1e-9)
          and np.allclose(Q @ Q.T, np.eye(3), atol=1e-9), "rq")
    check(np.allclose(multiview.cross_product_matrix(x) @ y, np.cross(x, y), atol=1e-12), "cross")
    check(np.allclose(multiview.euclidean(multiview.homogeneous(np.array([x, y])) * 3), [x, y], atol=1e-9), "homogeneous")
    check(np.array_equal(multiview.homogeneous_vec(np.array([x, y]))[:, 3], [0, 0]), "homogeneous_vec")
    if min(np.linalg.norm(x), np.linalg.norm(y)) > 1e-2:
        want = math.atan2(np.linalg.norm(np.cross(x, y)), x @ y)
        for got in (multiview.vector_angle(x, y), multiview.vector_angle(y, x), multiview.vector_angle(2 * x, y)):
            check(abs(got - want) < 1e-6, "angle", got, want)
        p = x
        H = multiview.plane_horizontalling_rotation(p)
        check(np.allclose(H @ p, [0, 0, np.linalg.norm(p)], atol=1e-6), "horizontal", H @ p)
        check(np.allclose(H @ H.T, np.eye(3), atol=1e-9) and np.linalg.det(H) > 0, "horizontal rotation")
    B = R + np.array(noise).reshape(3, 3)
    C = multiview.project_to_rotation_matrix(B)
    check(np.allclose(C @ C.T, np.eye(3), atol=1e-9), "projection is orthogonal")
    S = C.T @ B  # the closest orthogonal matrix leaves a symmetric factor
    check(np.allclose(S, S.T, atol=1e-9) and np.linalg.eigvalsh((S + S.T) / 2)[0] > 0, "polar factor")
    s, v = multiview.nullspace(np.vstack([x, y]) @ np.eye(3) if np.linalg.norm(np.cross(x, y)) > 1e-2 else np.diag([1.0, 2.0, 0.0]))
    if np.linalg.norm(np.cross(x, y)) > 1e-2:
        check(abs(v @ x) < 1e-7 and abs(v @ y) < 1e-7 and abs(np.linalg.norm(v) - 1) < 1e-9, "nullspace")
    f = fx
    a = np.linalg.norm(R - np.eye(3))
    Kf = np.diag([f, f, 1])
    Hm = Kf @ R @ np.linalg.inv(Kf)
    if a > 0.3 and abs(R[2, 2]) < 0.98 and np.linalg.norm(R[2, :2]) > 0.2 and np.linalg.norm(R[:2, 2]) > 0.2:
        got = multiview.focal_from_homography(Hm * 1.7)
        check(abs(got - f) < 1e-5 * f, "focal", got, f)
    got = multiview.R_from_homography(np.diag([fy, fy, 1]) @ R @ np.linalg.inv(Kf), f, fy)
    check(np.allclose(got, R, atol=1e-7), "R from homography")


@CHECK.sub("planes", st.tuples(vec(3, 1.0), vec(2, 20.0), st.lists(vec(2, 5.0), min_size=4, max_size=10),
                               grid(0.2, 30.0), st.integers(0, 3)), 300, rule="points that span the plane")
def planes(case, t):
    """A plane is recovered from points on it, vectors along it and verticals."""
    nrm, off, coords, size, nv = case
    n = np.array(nrm)
    if np.linalg.norm(n) < 0.05:
        n = np.array([0, 0, 1.0])
    n /= np.linalg.norm(n)
    H = np.linalg.svd(n[None])[2][1:]
    C = np.array(coords)
    sv = np.linalg.svd(C - C.mean(0))[1]
    if sv[1] < 0.5 or sv[1] < 0.05 * sv[0]:
        C = np.array([[0, 0], [1, 0], [0, 1], [3, 3.0]])
    else:
        t.nontrivial()
    pts = (C @ H) * size / 5 + off[0] * n
    vecs = [H[0], H[1], H[0] - H[1]][:nv]
    p = multiview.fit_plane(pts, vecs if nv else None, [n])
    got = p[:3] / np.linalg.norm(p[:3])
    check(np.linalg.norm(got - n) < 1e-5, "normal", got, n)
    p = multiview.fit_plane(pts, vecs if nv else None, [-n, -n])
    got = p[:3] / np.linalg.norm(p[:3])
    check(np.linalg.norm(got + n) < 1e-5, "normal", got, n)


@CHECK.sub("plane_motion", st.tuples(rot_s, vec(3, 1.0), vec(3, 1.0), ugrid(4.0), ugrid(2.0)), 300,
           rule="a translation that is not along the normal")
def plane_motion(case, t):
    """The true motion is among those decomposed from a plane homography."""
    r, tr, nrm, d, scale = case
    R, tr, n = rodrigues(r), np.array(tr), np.array(nrm)
    if min(np.linalg.norm(n), np.linalg.norm(tr), abs(d), abs(scale)) < 0.1:
        return
    n /= np.linalg.norm(n)
    H = scale * (d * R - np.outer(tr, n))
    l = np.linalg.svd(H)[1]
    if l[0] / l[1] < 1.01 or l[1] / l[2] < 1.01 or l[2] < 0.01 * l[0]:
        return
    t.nontrivial(np.linalg.norm(np.cross(R.T @ tr, n)) > 0.05)
    best = 1e9
    for R2, t2, n2, d2 in multiview.motion_from_plane_homography(H):
        check(np.allclose(R2 @ R2.T, np.eye(3), atol=1e-6), "rotation")
        # each is a decomposition of H: H ~ d R - t n^T
        G = d2 * R2 - np.outer(t2, n2)
        check(min(np.abs(G - H).max(), np.abs(G + H).max()) < 1e-6, "decomposition")
        s = 1 if n2 @ n > 0 else -1
        lam = np.linalg.norm(t2) / np.linalg.norm(tr)
        best = min(best, np.abs(R2 - R).max() + np.abs(s * n2 - n).max() + np.abs(t2 / lam - tr).max()
                   + abs(s * d2 / lam - d))
    check(best < 1e-5, "the true motion is missing", best)
