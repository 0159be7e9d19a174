"""C14: reconstructions are aligned to GPS and control points by the best similarity."""

import math

import c13_adjustment as c13
import cams
import numpy as np
from ba_ref import pose_of, read_pose
from gen import rng, rodrigues, rot_angle, rotvec_of, seeds, st
from harness import Check, Skip, check
from opensfm import align, config as oconfig
from opensfm import pymap

CHECK = Check("C14")
CHECK.assumptions = ["positions in the local frame are those of the geodetic converter (C01)"]


def similar(pose, S):
    """A camera pose [rotation vector, origin] (camera to world) after x -> s A x + b."""
    s, A, b = S
    return [rotvec_of(A @ rodrigues(pose[0])), s * A @ np.asarray(pose[1]) + b]


def shots_of(r):
    return {k: read_pose(s.pose) for k, s in r.shots.items()}


def transform(r, F, S):
    """Moves a reconstruction by a similarity, rig by rig and point by point."""
    s = S[0]
    for k, i in r.rig_instances.items():
        i.pose = pose_of(similar(read_pose(i.pose), S))
    for k, c in r.rig_cameras.items():
        p = read_pose(c.pose)
        c.pose = pose_of([p[0], s * p[1]])
    for p in r.points.values():
        p.coordinates = s * S[1] @ np.array(p.coordinates) + S[2]


def size(X):
    return max(1.0, float(np.max(np.abs(X)))) if len(X) else 1.0


def same(got, want, tol, *what):
    check(rot_angle(rodrigues(got[0]).T @ rodrigues(want[0])) < tol, *what, "rotation", got, "expected", want)
    check(np.allclose(got[1], want[1], atol=tol * size(want[1])), *what, "position", got, "expected", want)


def config(case, **more):
    c = dict(oconfig.default_config())
    c["bundle_use_gps"], c["bundle_use_gcp"] = case.get("use_gps", True), case.get("use_gcp", True)
    c["align_method"], c["align_orientation_prior"] = case.get("align", "auto"), case.get("orientation", "horizontal")
    c.update(more)
    return c


def random_similarity(g, scale, far):
    return (float(math.exp(g.uniform(-1.5, 1.5))) if scale else 1.0, rodrigues(g.normal(size=3)), g.normal(size=3) * far)


plain = {**c13.base, "depths": st.just(0.0), "bias": st.just(False), "points": st.sampled_from([0, 5]), "amp": st.just(0.0),
         "align": st.sampled_from(["auto", "auto", "naive"]), "far": st.sampled_from([0.0, 1.0, 100.0])}


@CHECK.sub("apply", st.fixed_dictionaries({**plain, "points": st.just(8), "gps": st.just(0.0), "gcps": st.just(0)}), quick=500, rule="always")
def apply(case, t):
    """Applying a similarity moves every image and point by it, and changes no image."""
    g, r, F, _, _ = c13.build(case)
    S = random_similarity(g, True, case["far"])
    before, points = shots_of(r), {k: np.array(p.coordinates) for k, p in r.points.items()}
    seen = {(o["shot"], o["point"]): np.array(r.shots[o["shot"]].project(points[o["point"]])) for o in F["obs"]}
    rigs = {k: read_pose(c.pose) for k, c in r.rig_cameras.items()}
    align.apply_similarity(r, *S)
    t.nontrivial()
    for k, p in before.items():
        same(read_pose(r.shots[k].pose), similar(p, S), 1e-9, "image", k)
    for k, p in points.items():
        check(np.allclose(r.points[k].coordinates, S[0] * S[1] @ p + S[2], atol=1e-9 * size(S[2])), "point", k)
    for (s, p), u in seen.items():
        check(np.allclose(r.shots[s].project(np.array(r.points[p].coordinates)), u, atol=1e-7 * size(S[2])), "the image of", p, "in", s, "moved")
    for k, p in rigs.items():
        same(read_pose(r.rig_cameras[k].pose), [p[0], S[0] * p[1]], 1e-9, "rig camera", k)


def usable(r, F, gcps, c, case):
    """Constraints: positions in the reconstruction and measured ones."""
    X, Y = [], []
    if c["bundle_use_gcp"]:
        P = c13.problem(F)
        for p in F["gcp"]:
            x = c13.triangulated(P, F, p, angle=math.radians(1.0), thr=0.02)
            if x is None or p["lla"] is None:
                continue
            y = np.array(r.reference.to_topocentric(*p["lla"]))
            if not p["alt"]:
                x, y = x * [1, 1, 0], y * [1, 1, 0]
            X.append(x), Y.append(y)
    if c["bundle_use_gps"]:
        for i in F["inst"].values():
            got = [F["gps"][s][0] for s in i["shots"] if s in F["gps"]]
            if got:
                X.append(np.asarray(i["value"][1])), Y.append(np.mean(got, axis=0))
    return np.array(X).reshape(-1, 3), np.array(Y).reshape(-1, 3)


def procrustes(X, Y, scale):
    """The best rotation and both common scales, and how well determined the rotation is."""
    x, y = X - X.mean(axis=0), Y - Y.mean(axis=0)
    U, d, Vt = np.linalg.svd(y.T @ x)
    D = np.diag([1.0] * (len(d) - 1) + [np.sign(np.linalg.det(U @ Vt))])
    A = U @ D @ Vt
    s1 = math.sqrt((y**2).sum() / (x**2).sum()) if scale else 1.0
    s2 = float(np.trace(np.diag(d) @ D)) / (x**2).sum() if scale else 1.0
    return A, (s1, s2), (d[-2] + D[-1, -1] * d[-1]) / d[0]


@CHECK.sub("naive", st.fixed_dictionaries({**plain, "instances": st.sampled_from([3, 5, 12, 1, 2]), "gps": st.sampled_from([1.0, 1.0, 0.5, 0.0]), "gcps": st.sampled_from([0, 3, 6]),
                                           "gcp_seen": st.sampled_from([1.0, 0.5])}),
           quick=900, rule="the alignment is determined by three constraints or more")
def naive(case, t):
    """The similarity returned and applied is the best one between the constraints."""
    g, r, F, gcps, _ = c13.build(case)
    S = random_similarity(g, case["rigs"] < 2, case["far"])
    transform(r, F, S)
    for i in F["inst"].values():
        i["value"] = similar(i["value"], S)
    for k, p in F["rig"].items():
        F["rig"][k] = [p[0], S[0] * np.asarray(p[1])]
    c = config(case)
    X, Y = usable(r, F, gcps, c, case)
    before, points = shots_of(r), {k: np.array(p.coordinates) for k, p in r.points.items()}
    line = True
    if len(X) > 2:
        x = X - X.mean(axis=0)
        e = np.linalg.eigvalsh(x.T @ x)
        if 4e3 < e[2] / max(e[1], 1e-300) < 6e3 or 1e-11 < e[1] < 1e-9:
            raise Skip("almost on a line")
        line = e[1] < 1e-10 or e[2] / e[1] > 5e3
    if line and case["align"] == "auto":
        return
    res = align.align_reconstruction(r, gcps, c)
    if len(X) == 0:
        check(res is None, "aligned to nothing")
        for k, p in before.items():
            same(read_pose(r.shots[k].pose), p, 1e-12, "image", k)
        return
    check(res is not None, "not aligned to", len(X), "constraints")
    s, A, b = res
    for k, p in before.items():
        same(read_pose(r.shots[k].pose), similar(p, (s, A, b)), 1e-8, "image", k, "does not follow the alignment,")
    for k, p in points.items():
        check(np.allclose(r.points[k].coordinates, s * A @ p + b, atol=1e-8 * max(size(p), size(b))), "point", k)
    check(np.allclose(A @ A.T, np.eye(3), atol=1e-8) and np.linalg.det(A) > 0, "not a rotation", A)
    if len(X) == 1 or np.linalg.norm(np.std(Y, axis=0)) < 1e-10:
        check(s == 1 and np.allclose(A, np.eye(3)) and np.allclose(b, Y[0] - X[0], atol=1e-9 * size(b)), "one constraint moves by a translation", res)
        return
    if len(X) == 2:
        if case["rigs"] < 2:
            check(np.allclose(s * X @ A.T + b, Y, atol=1e-6 * size(Y)), "two constraints are not met", s * X @ A.T + b, Y)
        return
    R, scales, cond = procrustes(X, Y, case["rigs"] < 2)
    if cond < 1e-3:
        return
    t.nontrivial()
    t.label(f"{min(len(X), 5)} constraints", "noise" if case["noise"] else "exact")
    tol = 1e-7 / cond
    check(rot_angle(R.T @ A) < tol, "rotation", A, "is not the best one", R)
    check(min(abs(s / x - 1) for x in scales) < tol, "scale", s, "is not the best one", scales)
    check(np.allclose(s * A @ X.mean(axis=0) + b, Y.mean(axis=0), atol=tol * max(size(X) * s, size(Y))), "the centers do not match")


def world_camera(g, kind, o, yaw):
    """Rotation (camera to world) of a camera with an EXIF orientation that is level as the prior wants it."""
    # right, down and front of the upright image in the world
    right = np.array([math.cos(yaw), math.sin(yaw), 0])
    if kind == "vertical":
        front, down = np.array([0, 0, -1.0]), None
    elif kind == "horizontal":
        front = np.array([-math.sin(yaw), math.cos(yaw), 0])
    else:
        a = g.uniform(-0.8, 0.8)
        front = np.array([-math.sin(yaw) * math.cos(a), math.cos(yaw) * math.cos(a), math.sin(a)])
    down = np.cross(front, right)
    # columns: directions of the stored image
    x, y = {1: (right, down), 3: (-right, -down), 6: (down, -right), 8: (-down, right)}[o]
    return np.stack([x, y, front], 1)


@CHECK.sub("prior", st.fixed_dictionaries({
    "seed": seeds, "kind": st.sampled_from(["horizontal", "vertical", "no_roll"]), "n": st.sampled_from([1, 2, 3, 6]), "line": st.booleans(),
    "far": st.sampled_from([0.0, 1.0, 100.0]), "rigs": st.sampled_from([0, 1, 2]), "noise": st.sampled_from([0.0, 0.0, 0.3]), "same": st.sampled_from([False, False, False, True]),
    "method": st.sampled_from(["auto", "orientation_prior"])}), quick=900, rule="at least two distinct positions")
def prior(case, t):
    """Images that look as the orientation prior says are put upright, in their place."""
    g = rng(case["seed"])
    from opensfm import geo, pygeometry, types

    r = types.Reconstruction()
    r.reference = geo.TopocentricConverter(10.0, 20.0, 30.0)
    r.add_camera(pygeometry.Camera.create_perspective(0.9, 0, 0))
    cam = list(r.cameras)[0]
    rigs = case["rigs"]
    height = float(g.uniform(-5, 5))
    d = g.normal(size=2)
    truth, gps, inst = {}, {}, {}
    n = case["n"]
    rc = []
    for j in range(rigs):
        # cameras of a rig are level together, at one height
        rc.append((j * 1.1, np.append(g.normal(size=2), 0)))
        o = [1, 3, 6, 8][g.integers(4)]
        rc[-1] += (o,)
    S = random_similarity(g, rigs < 2, case["far"])
    for k in range(n):
        # drawn evenly spread so that two positions never coincide
        p = np.append(d * (k + g.uniform(0, 0.3)) if case["line"] else g.normal(size=2) * 2 + [3 * k, 0], height)
        if case["same"]:
            p = np.append(d, height)
        yaw = g.uniform(-3, 3) if case["kind"] != "no_roll" or k > 1 else 0.9 * k
        if rigs:
            inst[f"i{k}"] = {}
            Z = np.array([[math.cos(yaw), -math.sin(yaw), 0], [math.sin(yaw), math.cos(yaw), 0], [0, 0, 1]])
            inst[f"i{k}"] = [rotvec_of(Z), p]
            for j, (a, c, o) in enumerate(rc):
                truth[f"s{k}_{j}"] = ([f"i{k}", j], o)
        else:
            o = [1, 3, 6, 8][g.integers(4)]
            truth[f"s{k}"] = ([rotvec_of(world_camera(g, case["kind"], o, yaw)), p], o)
    if rigs:
        C = [(world_camera(g, case["kind"], o, a), c) for a, c, o in rc]
        for j in range(rigs):
            r.add_rig_camera(pymap.RigCamera(pose_of([rotvec_of(C[j][0]), S[0] * C[j][1]]), f"r{j}"))
        for k in range(n):
            q = r.add_rig_instance(pymap.RigInstance(f"i{k}"))
            for j in range(rigs):
                r.create_shot(f"s{k}_{j}", cam, rig_camera_id=f"r{j}", rig_instance_id=f"i{k}")
            q.pose = pose_of(similar(inst[f"i{k}"], S))
        for s, ((i, j), o) in list(truth.items()):
            Z = rodrigues(inst[i][0])
            truth[s] = ([rotvec_of(Z @ C[j][0]), inst[i][1] + Z @ C[j][1]], o)
    else:
        for s, (p, o) in truth.items():
            r.create_shot(s, cam, pose_of(similar(p, S)))
    place = {s: np.asarray(inst[s.replace("s", "i").split("_")[0]][1] if rigs else p[1]) for s, (p, o) in truth.items()}
    off = {}
    for s, (p, o) in truth.items():
        key = s.split("_")[0]
        off.setdefault(key, case["noise"] * g.normal(size=3))
        gps[s] = place[s] + off[key]
        r.shots[s].metadata.orientation.value = o
        r.shots[s].metadata.gps_position.value = gps[s]
    if case["kind"] == "no_roll" and len(truth) < 2:
        return  # its axis alone does not tell the plane
    X = np.array(list({s.split("_")[0]: place[s] for s in place}.values()))
    Y = np.array(list({s.split("_")[0]: gps[s] for s in gps}.values()))
    if case["method"] == "auto" and len(X) > 2:
        x = X - X.mean(axis=0)
        e = np.linalg.eigvalsh(x.T @ x) * S[0] ** 2
        if e[1] > 1e-10 and e[2] / e[1] < 5.2e3:
            return  # direct alignment
        if not (e[1] < 1e-13 or e[2] / max(e[1], 1e-300) > 6e3):
            raise Skip("almost on a line")
    res = align.align_reconstruction(r, [], config({"align": case["method"], "orientation": case["kind"]}))
    check(res is not None, "not aligned")
    after = shots_of(r)
    if rigs > 1:
        for j in range(rigs):
            check(np.allclose(read_pose(r.rig_cameras[f"r{j}"].pose)[1], S[0] * C[j][1], atol=1e-9), "the size of a rig changed")
    distinct = len(X) > 1 and not case["same"] and np.max(np.std(Y, axis=0)) > 0.02 and np.max(np.std(X, axis=0)) > 0.02
    if case["kind"] == "no_roll" and n < 2 and rigs < 2:
        return
    scale = max(1.0, size(X))
    for s, (p, o) in truth.items():
        R, W = rodrigues(after[s][0]), rodrigues(p[0])
        # how far each direction is above the horizon
        check(np.allclose(R[2], W[2], atol=1e-5), "image", s, "is not level:", R[2], "should be", W[2], "orientation", o)
    if case["noise"] == 0 and distinct:
        t.nontrivial()
        for s, (p, o) in truth.items():
            same(after[s], p, 1e-5 * scale, "image", s)
    if case["noise"] == 0:
        for s, (p, o) in truth.items():
            if not rigs:
                check(np.allclose(np.mean([after[k][1] for k in after], axis=0), Y.mean(axis=0), atol=1e-5 * scale), "not at the position of the images")
    if case["noise"] and distinct:
        # as good as can be in the plane: aligning again changes nothing
        t.label("noise")
        mid = np.array([read_pose(i.pose)[1] for i in r.rig_instances.values()])
        check(abs(mid[:, 2].mean() - Y[:, 2].mean()) < 1e-5 * scale, "height", mid[:, 2].mean(), "not", Y[:, 2].mean())
        order = [*dict.fromkeys(s.split("_")[0] for s in gps)]
        T = np.array([Y[order.index(next(iter(i.shots)).split("_")[0])] for i in r.rig_instances.values()])
        A, scales, cond = procrustes(mid[:, :2], T[:, :2], rigs < 2)
        if (mid[:, :2].std(axis=0).max() > 0.05) and cond > 1e-2 and len(mid) > 1:
            check(abs(math.atan2(A[1, 0], A[0, 0])) < 1e-4 / cond, "heading is off by", math.atan2(A[1, 0], A[0, 0]))
            check(min(abs(x - 1) for x in scales) < 1e-4, "scale is off by", scales)
            check(np.allclose(mid[:, :2].mean(axis=0), T[:, :2].mean(axis=0), atol=1e-5 * scale), "centers differ")


@CHECK.sub("bias", st.fixed_dictionaries({
    **plain, "rigs": st.sampled_from([0, 0, 2]), "instances": st.sampled_from([6, 12]), "gps": st.just(1.0), "gcps": st.sampled_from([5, 5, 2, 0]), "gcp_seen": st.just(1.0),
    "surveyed": st.just(1.0), "noise": st.just(0.0), "use_gps": st.just(True), "use_gcp": st.sampled_from([True, True, True, False])}),
    quick=500, rule="the GPS positions of two cameras or more are off")
def bias(case, t):
    """GPS biases bring the GPS positions of each camera to where the control points put its images."""
    g, r, F, gcps, _ = c13.build(case)
    cameras = {}
    for s, shot in r.shots.items():
        cameras.setdefault(shot.camera.id, []).append(s)
    truth = shots_of(r)
    place = {s: np.asarray(i["value"][1]) for i in F["inst"].values() for s in i["shots"]}
    for p, q in zip(F["gcp"], gcps):
        p["alt"] = q.has_altitude = True
    for p, q in zip(F["gcp"], gcps):
        # control points measured exactly
        x = c13.triangulated(c13.problem(F), F, p, angle=math.radians(1.0), thr=0.02)
        if x is None:
            raise Skip("control point not seen")
        p["lla"] = [float(v) for v in r.reference.to_lla(*x)]
        q.lla = dict(zip(("latitude", "longitude", "altitude"), p["lla"]))
    off = {}
    for c, names in cameras.items():
        B = random_similarity(g, case["rigs"] < 2, 1.0)
        B = (B[0], rodrigues(0.3 * rotvec_of(B[1])), B[2])
        if case["rigs"] and off:
            B = next(iter(off.values()))  # one receiver per rig
        off[c] = B
        x = np.array([place[s] for s in names])
        e = np.linalg.eigvalsh((x - x.mean(axis=0)).T @ (x - x.mean(axis=0)))
        if len(names) < 4 or e[2] / max(e[1], 1e-300) > 4e3:
            raise Skip("too few images of a camera")
        for s in names:
            r.shots[s].metadata.gps_position.value = B[0] * B[1] @ place[s] + B[2]
    if case["gcps"] > 2:
        P = c13.problem(F)
        x = np.array([c13.triangulated(P, F, p, angle=math.radians(1.0), thr=0.02) for p in F["gcp"]])
        e = np.linalg.eigvalsh((x - x.mean(axis=0)).T @ (x - x.mean(axis=0)))
        if e[2] / e[1] > 1e3:
            raise Skip("control points on a line")
    S = random_similarity(g, case["rigs"] < 2, case["far"])
    transform(r, F, S)
    before = shots_of(r)
    c = config(dict(case, align="naive" if case["gcps"] in (0, 2) or not case["use_gcp"] else case["align"]), bundle_compensate_gps_bias=True)
    res = align.align_reconstruction(r, gcps, c, bias_override=True)
    after = shots_of(r)
    if case["gcps"] == 0 or not case["use_gcp"]:
        check(res is None, "aligned to nothing", res)
        for s in before:
            same(after[s], before[s], 1e-12, "image", s)
        return
    check(res is not None, "not aligned to the control points")
    if case["gcps"] < 3:
        return
    t.nontrivial(len(cameras) > 1)
    t.label(f"{len(cameras)} cameras", f"rigs {case['rigs']}")
    for s in truth:
        same(after[s], truth[s], 1e-5 * max(1, case["far"]), "image", s)
    for cam, names in cameras.items():
        b = r.biases[cam]
        for s in names:
            got = b.scale * rodrigues(np.array(b.rotation)) @ np.array(r.shots[s].metadata.gps_position.value) + np.array(b.translation)
            check(np.allclose(got, place[s], atol=1e-4 * max(1, case["far"])), "the bias takes the GPS of", s, "to", got, "not", place[s])
