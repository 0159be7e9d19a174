"""C13: adjusting a reconstruction optimizes what the configuration asks for, and only that."""

import copy
import math

import ba_ref
import cams
import numpy as np
from ba_ref import Problem, get_params, pose_of, project_many, read_camera, read_pose, set_params
from c12_bundle import camera, close, jitter_camera, jitter_pose
from gen import rng, rodrigues, rot_angle, rotvec_of, seeds, st
from harness import Check, Skip, check
from opensfm import config as oconfig
from opensfm import geo, pygeometry, pymap, pysfm, reconstruction as orec, types

CHECK = Check("C13")
CHECK.assumptions = ["the adjuster minimizes the objective it is given (C12)"]

NOTHING = (np.zeros(3), np.zeros(3))


def build(case):
    """A reconstruction near a consistent scene; returns it with the facts about it."""
    g = rng(case["seed"])
    r = types.Reconstruction()
    r.reference = geo.TopocentricConverter(*(float(x) for x in (g.uniform(-70, 70), g.uniform(-180, 180), g.uniform(0, 500))))
    F = {"cams": {}, "cam_priors": {}, "rig_priors": {}, "rig": {}, "inst": {}, "points": {}, "obs": [], "gps": {}}
    types_ = case["types"]
    G = rodrigues(g.normal(size=3) * case["turn"])
    for k, t in enumerate(types_):
        c = dict(camera(g, t, 0.05), id=f"c{k}")
        F["cams"][f"c{k}"] = c
    rigs = case["rigs"]
    for j in range(rigs):
        p = [g.normal(size=3) * 0.1, g.normal(size=3) * 0.2]
        F["rig"][f"r{j}"] = p
    n = case["instances"]
    for k in range(n):
        R = G @ rodrigues(g.normal(size=3) * 0.15)
        c = G @ (g.uniform(-1, 1, 3) * [0.3 * n + 1, 1.5, 0.5])
        cam0 = f"c{g.integers(len(types_))}"
        if rigs:
            shots = {f"s{k}_{j}": (cam0 if case["bias"] else f"c{g.integers(len(types_))}", f"r{j}") for j in range(rigs)}
            F["inst"][f"i{k}"] = {"value": [rotvec_of(R), c], "shots": shots}
        else:
            F["inst"][f"s{k}"] = {"value": [rotvec_of(R), c], "shots": {f"s{k}": (cam0, cam0)}}
            F["rig"].setdefault(cam0, NOTHING)
    for k in range(case["points"]):
        p = G @ (np.append(g.uniform(-1, 1, 2) * [0.3 * n + 2, 2], g.uniform(3.5, 9)))
        F["points"][f"p{k}"] = p
    P = problem(F)
    _, shots = P.poses(P.initial())
    world = {}

    def see(s, X):
        R, c = shots[s]
        cam = F["cams"][P.shot(s)[1]]
        L = R.T @ (X - c)
        if cam["type"] != "spherical":
            a = math.atan2(math.hypot(L[0], L[1]), L[2])
            q = a if cam["type"] in cams.FISH | {"dual"} else math.tan(a)
            if a > 1.2 or q > cams.MAX_R[cam["type"]]:
                return None
        return project_many(cam, L[None])[0], L

    for s in sorted(shots):
        for pid in sorted(F["points"], key=lambda x: int(x[1:])):
            v = see(s, F["points"][pid])
            if v is None or g.random() > case["seen"]:
                continue
            depth = None
            if g.random() < case["depths"]:
                radial = bool(g.random() < 0.5)
                depth = (float(np.linalg.norm(v[1]) if radial else v[1][2]), float(g.choice([0.1, 1.0])), radial)
            xy = v[0] + 0.002 * case["noise"] * g.normal(size=2)
            F["obs"].append({"shot": s, "point": pid, "xy": xy, "sd": float(g.choice([0.002, 0.004, 0.01])), "depth": depth})
    for s, (_, c) in shots.items():
        if g.random() < case["gps"]:
            F["gps"][s] = (c + 0.3 * case["noise"] * g.normal(size=3), float(g.choice([0.5, 2.0, 10.0])) if g.random() < case["accuracy"] else None)
    # control points
    F["gcp"] = []
    for k in range(case["gcps"]):
        X = G @ np.append(g.uniform(-1, 1, 2), g.uniform(3.5, 6))
        ob = {}
        for s in sorted(shots):
            v = see(s, X)
            if v is not None and g.random() < case["gcp_seen"]:
                ob[s] = v[0] + 0.002 * case["noise"] * g.normal(size=2)
        if g.random() < 0.3:
            ob["elsewhere"] = np.array([0.1, 0.1])
        lla = None
        if g.random() < case["surveyed"]:
            lla = list(r.reference.to_lla(*(X + 0.1 * case["noise"] * g.normal(size=3))))
        alt = bool(g.random() < 0.7)
        if lla and not alt:
            lla[2] = 0.0
        F["gcp"].append({"id": f"g{k}", "obs": ob, "lla": lla, "alt": alt})
    # the start is off, and the priors of cameras and rigs are yet others
    for k, c in F["cams"].items():
        F["cam_priors"][k] = dict(jitter_camera(g, c, 0.02), id=k)
        F["cams"][k] = dict(jitter_camera(g, c, case["amp"]), id=k)
    for k, p in F["rig"].items():
        if p is NOTHING:
            F["rig_priors"][k] = NOTHING
            continue
        F["rig_priors"][k] = jitter_pose(g, p, 0.05)
        F["rig"][k] = jitter_pose(g, p, case["amp"])
    for i in F["inst"].values():
        i["value"] = jitter_pose(g, i["value"], case["amp"])
    for p in F["points"]:
        F["points"][p] = F["points"][p] + g.normal(size=3) * case["amp"]
    F["biases"] = {}
    for k in F["cams"]:
        if case["bias"]:
            F["biases"][k] = [g.normal(size=3) * 0.05, g.normal(size=3) * 0.3, float(g.uniform(0.9, 1.1))]
    # the reconstruction
    for c in F["cams"].values():
        r.add_camera(cams.make(c))
    if rigs:
        for k, p in F["rig"].items():
            r.add_rig_camera(pymap.RigCamera(pose_of(p), k))
    for iid, i in F["inst"].items():
        if rigs:
            inst = r.add_rig_instance(pymap.RigInstance(iid))
            for s, (cam, rig) in i["shots"].items():
                r.create_shot(s, cam, rig_camera_id=rig, rig_instance_id=iid)
            inst.pose = pose_of(i["value"])
        else:
            r.create_shot(iid, i["shots"][iid][0], pose_of(i["value"]))
    for s, (pos, acc) in F["gps"].items():
        m = r.shots[s].metadata
        m.gps_position.value = pos
        if acc is not None:
            m.gps_accuracy.value = acc
    for p, x in F["points"].items():
        r.create_point(p, x)
    for k, o in enumerate(F["obs"]):
        ob = pymap.Observation(*(float(x) for x in o["xy"]), o["sd"], 1, 2, 3, k)
        if o["depth"]:
            v, sd, radial = o["depth"]
            ob.depth_prior = pymap.Depth(value=v, std_deviation=sd, is_radial=radial)
        r.add_observation(o["shot"], o["point"], ob)
    for k, (a, t, s) in F["biases"].items():
        r.set_bias(k, pygeometry.Similarity(np.array(a), np.array(t), s))
    points = []
    for p in F["gcp"]:
        q = pymap.GroundControlPoint()
        q.id = p["id"]
        q.has_altitude = p["alt"]
        if p["lla"]:
            q.lla = dict(zip(("latitude", "longitude", "altitude"), (float(x) for x in p["lla"])))
        q.observations = [pymap.GroundControlPointObservation(s, np.array(u)) for s, u in p["obs"].items()]
        points.append(q)
    priors = ({k: cams.make(c) for k, c in F["cam_priors"].items()},
              {k: pymap.RigCamera(pose_of(p), k) for k, p in F["rig_priors"].items()})
    return g, r, F, points, priors


def problem(F):
    P = Problem()
    for k, c in F["cams"].items():
        P.cameras[k] = {"value": c, "prior": F["cam_priors"].get(k, c), "fixed": False}
    for k, p in F["rig"].items():
        P.rigs[k] = {"value": p, "prior": F["rig_priors"].get(k, p), "fixed": False}
    for k, i in F["inst"].items():
        P.instances[k] = {"value": i["value"], "shots": dict(i["shots"]), "prior": None, "fixed": False}
    for k, p in F["points"].items():
        P.points[k] = {"value": p, "prior": None, "fixed": False}
    return P


def settings(case, g):
    c = dict(oconfig.default_config())
    c["processes"] = 1
    c["loss_function"] = case["loss"]
    c["loss_function_threshold"] = float(g.choice([0.5, 1.0, 3.0]))
    for k in ("exif_focal_sd", "aspect_ratio_sd", "principal_point_sd", "radial_distortion_k1_sd", "radial_distortion_k2_sd",
              "radial_distortion_k3_sd", "radial_distortion_k4_sd", "tangential_distortion_p1_sd", "tangential_distortion_p2_sd"):
        c[k] = float(g.choice([0.01, 0.05, 0.3]))
    c["rig_translation_sd"], c["rig_rotation_sd"] = (float(x) for x in g.choice([0.05, 0.1, 0.5], 2))
    c["gcp_horizontal_sd"], c["gcp_vertical_sd"] = (float(x) for x in g.choice([0.01, 0.1, 0.5], 2))
    c["gcp_global_weight"] = float(g.choice([0.01, 0.05, 0.3]))
    c["bundle_use_gps"], c["bundle_use_gcp"] = case["use_gps"], case["use_gcp"]
    c["optimize_camera_parameters"] = case["optimize"]
    c["bundle_analytic_derivatives"] = case["analytic"]
    c["align_method"], c["align_orientation_prior"] = case["align"], case["orientation"]
    c["bundle_compensate_gps_bias"] = bool(case["bias"])
    return c


def with_config(P, c):
    P.loss = (c["loss_function"], c["loss_function_threshold"])
    P.sd = [c[k] for k in ("exif_focal_sd", "aspect_ratio_sd", "principal_point_sd", "radial_distortion_k1_sd", "radial_distortion_k2_sd",
                           "tangential_distortion_p1_sd", "tangential_distortion_p2_sd", "radial_distortion_k3_sd", "radial_distortion_k4_sd")]
    P.rig_sd = (c["rig_translation_sd"], c["rig_rotation_sd"])


def gps_priors(P, F, shots=None):
    """The position of an instance is the average of those measured for its images."""
    for iid, i in P.instances.items():
        got = [F["gps"][s] for s in i["shots"] if (shots is None or s in shots) and s in F["gps"] and F["gps"][s][1] is not None]
        if got:
            i["prior"] = (np.mean([x[0] for x in got], axis=0), np.full(3, np.mean([x[1] for x in got])), "g")


def triangulated(P, F, gcp, angle=math.radians(0.1), depth=1e-3, thr=1.0):
    """Midpoint of a control point's rays; None without one."""
    _, shots = P.poses(P.initial())
    C, B = [], []
    for s, u in gcp["obs"].items():
        if s in shots:
            R, c = shots[s]
            C.append(c)
            B.append(R @ np.array(cams.make(F["cams"][P.shot(s)[1]]).pixel_bearing(np.array(u))))
    if len(C) < 2:
        return None
    C, B = np.array(C), np.array(B)
    cosines = [abs(float(B[i] @ B[j])) * np.sign(B[i] @ B[j]) for i in range(len(B)) for j in range(i)]
    big = max(math.acos(min(1, max(-1, x))) for x in cosines)
    if abs(big - angle) < 1e-5:
        raise Skip("angle at the limit")
    if big < angle:
        return None
    A = sum(np.eye(3) - np.outer(b, b) for b in B)
    X = np.linalg.solve(A, sum((np.eye(3) - np.outer(b, b)) @ c for b, c in zip(B, C)))
    if np.linalg.cond(A) > 1e5:
        raise Skip("badly conditioned control point")
    for c, b in zip(C, B):
        d = X - c
        e = math.acos(min(1, max(-1, float(b @ d) / np.linalg.norm(d))))
        if abs(e - thr) < 1e-4 or abs(b @ d - depth) < 1e-4:
            raise Skip("control point at the limit")
        if e > thr or b @ d < depth:
            return None
    return X


def add_gcps(P, F, reference, c, mine=None):
    """Control points enter with a weight relative to the other terms."""
    _, shots = P.poses(P.initial())
    inside = set(shots) if mine is None else mine
    main = len(P.instances) + sum(1 for o in P.obs)
    found, total = [], 0
    for p in F["gcp"]:
        X = triangulated(F["full"], F, p)
        seen = [s for s in p["obs"] if s in inside]
        total += (X is not None or p["lla"] is not None) + len(seen)
        if X is None and p["lla"] is None:
            continue
        local = np.array(reference.to_topocentric(*p["lla"])) if p["lla"] is not None else None
        found.append((p, X if X is not None else local, local, seen))
    w = c["gcp_global_weight"] * main / max(1, total)
    for p, X, local, seen in found:
        k = "gcp-" + p["id"]
        sd = np.array([c["gcp_horizontal_sd"]] * 2 + [c["gcp_vertical_sd"]]) / w
        P.points[k] = {"value": X, "fixed": False, "prior": None if local is None else (local, sd, p["alt"])}
        for s in seen:
            P.obs.append({"shot": s, "point": k, "xy": p["obs"][s], "sd": 0.001 / w, "depth": None})
    return {"gcp-" + f[0]["id"] for f in found}


def state(r, P):
    """What the reconstruction holds now, control points as they started."""
    s = P.initial()
    for k in P.cameras:
        s["cameras"][k] = get_params(read_camera(r.cameras[k], P.cameras[k]["value"]))
    for k in P.rigs:
        s["rigs"][k] = read_pose(r.rig_cameras[k].pose)
    for k in P.instances:
        s["instances"][k] = read_pose(r.rig_instances[k].pose)
    for k in P.points:
        if k in r.points:
            s["points"][k] = np.array(r.points[k].coordinates)
    for k in P.biases:
        b = r.biases[k]
        s["biases"][k] = np.concatenate([b.rotation, b.translation, [b.scale]])
    return s


def snapshot(r):
    return {
        "cameras": {k: [float(x) for x in c.get_parameters_values()] for k, c in r.cameras.items()},
        "rigs": {k: read_pose(c.pose) for k, c in r.rig_cameras.items()},
        "instances": {k: read_pose(c.pose) for k, c in r.rig_instances.items()},
        "points": {k: np.array(c.coordinates) for k, c in r.points.items()},
        "errors": {k: {s: np.ravel(e) for s, e in c.reprojection_errors.items()} for k, c in r.points.items()},
    }


def same_pose(a, b, tol=1e-9):
    return rot_angle(rodrigues(a[0]).T @ rodrigues(b[0])) < tol and np.allclose(a[1], b[1], rtol=1e-12, atol=1e-12)


def report_of(text):
    import re

    m = re.search(r"Initial cost: *(\S+), *Final cost: *(\S+), *Termination: *(\S+)", text)
    return float(m.group(1)), float(m.group(2)), m.group(3)


def judge(r, P, rep, free_gcps, t):
    first, last, how = report_of(rep["brief_report"])
    st0 = P.initial()
    want = P.cost(st0)
    check(close(first, want, 5e-5), "initial cost", first, "reference", want)
    st1 = state(r, P)
    if any(np.linalg.norm(st1["rigs"][k][0] - v["prior"][0]) > 2 for k, v in P.rigs.items()):
        raise Skip("rig rotation vectors beyond half a turn")
    Q = P
    if free_gcps:  # control points are not given back: the terms without them are a lower bound
        Q = copy.copy(P)
        Q.points = {k: v for k, v in P.points.items() if k not in free_gcps}
        Q.obs = [o for o in P.obs if o["point"] not in free_gcps]
    end = Q.cost(st1)
    # the solver reports the cost of a step it rejects for gaining less than a thousandth of the prediction
    slack = 1e-3 * first if how != "CONVERGENCE" else 0
    check(end * (1 - 1e-4) - 1e-6 - slack <= last and (free_gcps or last <= end * (1 + 1e-4) + 1e-6),
          "final cost", last, "reference at the result", end, "from", first, how)
    check(last <= first * (1 + 1e-6) + 1e-12, "cost grew from", first, "to", last)
    t.label(how)
    t.nontrivial(last < 0.9 * first and len(P.obs) > 10)
    return st1, how, last


def judge_errors(r, P, st1, ids, scale=1.0):
    want = {}
    for o, (v, _) in zip(P.obs, P.reprojections(st1)):
        want.setdefault(o["point"], {})[o["shot"]] = v
    for p in ids:
        got = r.points[p].reprojection_errors
        w = want.get(p, {})
        check(set(got) == set(w), "errors of", p, "are of", sorted(got), "not", sorted(w))
        for s in w:
            check(np.allclose(np.ravel(got[s]), w[s], atol=1e-8 + 1e-6 * np.linalg.norm(w[s])), "reprojection error", p, s, got[s], w[s])


def still(before, after, kinds, but=()):
    for kind in kinds:
        check(set(before[kind]) == set(after[kind]), kind, "changed")
        for k in before[kind]:
            if (kind, k) in but:
                continue
            a, b = before[kind][k], after[kind][k]
            if kind in ("rigs", "instances"):
                ok = same_pose(a, b)
            elif kind == "errors":
                ok = set(a) == set(b) and all(np.array_equal(a[s], b[s]) for s in a)
            else:
                ok = np.array_equal(a, b)
            check(ok, kind, k, "changed from", a, "to", b)


base = {
    "seed": seeds, "types": st.lists(st.sampled_from([x for x in cams.TYPES if x != "dual"]), min_size=1, max_size=2),
    "rigs": st.sampled_from([0, 0, 1, 2, 3]), "instances": st.sampled_from([2, 3, 5]), "points": st.sampled_from([5, 12, 25]),
    "seen": st.sampled_from([1.0, 0.6]), "turn": st.sampled_from([0.0, 0.5, 1.6]), "depths": st.sampled_from([0.0, 0.0, 0.3]),
    "noise": st.sampled_from([0.0, 1.0]), "gps": st.sampled_from([0.0, 0.6, 1.0]), "accuracy": st.sampled_from([1.0, 0.7]), "gcps": st.sampled_from([0, 0, 1, 3]),
    "gcp_seen": st.sampled_from([0.3, 1.0]), "surveyed": st.sampled_from([1.0, 0.5]), "amp": st.sampled_from([0.0, 0.02, 0.06]), "bias": st.booleans(),
    "use_gps": st.sampled_from([True, True, False]), "use_gcp": st.sampled_from([True, True, False]),
    "optimize": st.sampled_from([True, True, False]), "analytic": st.booleans(), "align": st.sampled_from(["auto", "naive", "orientation_prior"]),
    "orientation": st.sampled_from(["vertical", "horizontal", "no_roll"]), "loss": st.sampled_from(["SoftLOneLoss", "HuberLoss", "CauchyLoss", "TrivialLoss"]),
}


def detected(F, P, reference, c):
    """The alignment method by the documentation: three constraints that are not on a line."""
    _, shots = P.poses(P.initial())
    X = []
    if c["bundle_use_gcp"]:
        for p in F["gcp"]:
            x = triangulated(P, F, p)
            if p["lla"] is not None and x is not None:
                X.append(x)
    if c["bundle_use_gps"]:
        X += [shots[s][1] for s in F["gps"]]
    if len(X) < 3:
        return "orientation_prior"
    X = np.array(X) - np.mean(X, axis=0)
    e = np.linalg.eigvalsh(X.T @ X)
    if any(3e-11 < x < 3e-10 for x in e[:2]) or 4.8e3 < abs(e[2] / e[1]) < 5.2e3:
        raise Skip("constraints almost on a line")
    return "orientation_prior" if e[1] < 1e-10 or e[2] / e[1] > 5e3 else "naive"


@CHECK.sub("bundle", st.fixed_dictionaries({**base, "instances": st.sampled_from([2, 3, 5, 9, 10, 11, 12, 23])}), quick=1000,
           rule="more than ten observations, and the cost drops by a tenth")
def bundle(case, t):
    g, r, F, gcps, (cp, rp) = build(case)
    c = settings(case, g)
    c["bundle_max_iterations"] = int(g.choice([3, 20, 60]))
    P = problem(F)
    F["full"] = problem(F)
    with_config(P, c)
    P.obs = [dict(o) for o in F["obs"]]
    method = detected(F, P, r.reference, c)
    check(pysfm.BAHelpers.detect_alignment_constraints(r.map, c, gcps) == method, "detected alignment is not", method)
    if case["align"] != "auto":
        method = case["align"]
    if method == "orientation_prior" and case["orientation"] in ("vertical", "horizontal"):
        v = [0, 0, -1] if case["orientation"] == "vertical" else [0, -1, 0]
        P.terms = [{"kind": "up", "i": s, "v": v, "sd": 1e-3} for i in P.instances.values() for s in i["shots"]]
    if c["bundle_use_gps"]:
        gps_priors(P, F)
    made = add_gcps(P, F, r.reference, c) if c["bundle_use_gcp"] else set()
    lock = sum(len(i["shots"]) for i in P.instances.values()) // len(P.rigs) <= 10
    for k, v in P.rigs.items():
        v["fixed"] = lock or k in P.cameras
    for v in P.cameras.values():
        v["fixed"] = not case["optimize"]
    P.biases = dict(F["biases"])
    before = snapshot(r)
    rep = orec.bundle(r, cp, rp, gcps, c)
    after = snapshot(r)
    t.label("rigs move" if not lock and case["rigs"] else "rigs locked", method, f"gcps {len(made)}")
    check(rep["num_images"] == len(r.shots) and rep["num_points"] == len(F["points"]) and rep["num_reprojections"] == len(F["obs"]), "report counts")
    st1, how, last = judge(r, P, rep, made, t)
    judge_errors(r, P, st1, F["points"])
    still(before, after, ["rigs"], {("rigs", k) for k, v in P.rigs.items() if not v["fixed"]})
    if not case["optimize"]:
        still(before, after, ["cameras"])
    if how == "CONVERGENCE" and len(F["obs"]) < 150 and not P.biases and not made and len(P.instances) < 10:
        gain = P.gain(st1)
        if gain > 0.03 * last + 1e-6:
            # the solver may have stopped on slow progress: it goes on when asked again
            a, b, _ = report_of(orec.bundle(r, cp, rp, gcps, c)["brief_report"])
            check(b < a * (1 - 1e-6), "the result", last, "can be improved by", gain, "but was not")


@CHECK.sub("local", st.fixed_dictionaries({**base, "bias": st.just(False), "instances": st.sampled_from([3, 6, 12]), "seen": st.sampled_from([0.2, 0.4, 1.0]),
                                           "radius": st.integers(1, 3), "common": st.sampled_from([1, 3, 8]), "most": st.sampled_from([2, 4, 30])}), quick=1200,
           rule="more than ten observations, and the cost drops by a tenth")
def local(case, t):
    g, r, F, gcps, (cp, rp) = build(case)
    c = settings(case, g)
    c["local_bundle_radius"], c["local_bundle_min_common_points"], c["local_bundle_max_shots"] = case["radius"], case["common"], case["most"]
    shots = sorted(s for i in F["inst"].values() for s in i["shots"])
    center = shots[int(g.integers(len(shots)))]
    interior, boundary = around(F, center, case["radius"], case["common"], case["most"])
    both = interior | boundary
    P = problem(F)
    F["full"] = problem(F)
    with_config(P, c)
    P.instances = {k: i for k, i in P.instances.items() if set(i["shots"]) & both}
    used = {rig for i in P.instances.values() for _, rig in i["shots"].values()}
    P.rigs = {k: v for k, v in P.rigs.items() if k in used}
    for v in list(P.rigs.values()) + list(P.cameras.values()):
        v["fixed"] = True
    for i in P.instances.values():
        i["fixed"] = bool(set(i["shots"]) & boundary)
    ids = {o["point"] for o in F["obs"] if o["shot"] in interior}
    P.points = {k: v for k, v in P.points.items() if k in ids}
    P.obs = [dict(o) for o in F["obs"] if o["shot"] in both and o["point"] in ids]
    if c["bundle_use_gps"]:
        gps_priors(P, F)
        for i in P.instances.values():
            if i["fixed"]:
                i["prior"] = None
    n_obs = len(P.obs)
    made = add_gcps(P, F, r.reference, c, mine=both) if c["bundle_use_gcp"] else set()
    before = snapshot(r)
    got, rep = orec.bundle_local(r, cp, rp, gcps, center, c)
    after = snapshot(r)
    check(sorted(got) == sorted(ids), "adjusted points")
    check([rep[k] for k in ("num_images", "num_interior_images", "num_boundary_images", "num_other_images", "num_points", "num_reprojections")]
          == [len(interior), len(interior), len(boundary), len(shots) - len(both), len(ids), n_obs], "report", rep)
    t.label(f"other {min(3, len(shots) - len(both))}", f"boundary {min(3, len(boundary))}", f"gcps {len(made)}")
    st1, how, last = judge(r, P, rep, made, t)
    judge_errors(r, P, st1, ids)
    moved = {("instances", k) for k, i in P.instances.items() if not i["fixed"]} | {(x, p) for p in ids for x in ("points", "errors")}
    still(before, after, ["cameras", "rigs", "instances", "points", "errors"], moved)


@CHECK.sub("shot_poses", st.fixed_dictionaries({**base, "bias": st.just(False), "part": st.sampled_from([0.2, 0.5, 1.0])}), quick=1200,
           rule="more than ten observations, and the cost drops by a tenth")
def shot_poses(case, t):
    g, r, F, _, (cp, rp) = build(case)
    c = settings(case, g)
    shots = sorted(s for i in F["inst"].values() for s in i["shots"])
    mine = {s for s in shots if g.random() < case["part"]} or {shots[0]}
    if g.random() < 0.5:  # whole instances
        mine = {s for i in F["inst"].values() if set(i["shots"]) & mine for s in i["shots"]}
    P = problem(F)
    with_config(P, c)
    P.instances = {k: i for k, i in P.instances.items() if set(i["shots"]) & mine}
    used = {x for i in P.instances.values() for x in i["shots"].values()}
    P.cameras = {k: dict(v, fixed=True) for k, v in P.cameras.items() if k in {x[0] for x in used}}
    P.rigs = {k: dict(v, fixed=True) for k, v in P.rigs.items() if k in {x[1] for x in used}}
    for i in P.instances.values():
        i["fixed"] = not set(i["shots"]) <= mine
    ids = {o["point"] for o in F["obs"] if o["shot"] in mine}
    P.points = {k: dict(v, fixed=True) for k, v in P.points.items() if k in ids}
    P.obs = [dict(o) for o in F["obs"] if o["shot"] in mine]
    if c["bundle_use_gps"]:
        gps_priors(P, F)
        for i in P.instances.values():
            if i["fixed"]:
                i["prior"] = None
    before = snapshot(r)
    rep = orec.bundle_shot_poses(r, mine, cp, rp, c)
    after = snapshot(r)
    judge(r, P, rep, set(), t)
    t.label("part of a rig" if any(i["fixed"] for i in P.instances.values()) else "whole instances", f"rigs {case['rigs']}")
    still(before, after, ["cameras", "rigs", "instances", "points", "errors"], {("instances", k) for k, i in P.instances.items() if not i["fixed"]})


def around(F, center, radius, common, most):
    """Interior and boundary of the neighborhood of an image."""
    seen, seers = {}, {}
    for o in F["obs"]:
        seen.setdefault(o["shot"], set()).add(o["point"])
        seers.setdefault(o["point"], set()).add(o["shot"])
    whole = {s: set(i["shots"]) for i in F["inst"].values() for s in i["shots"]}

    def near(inside, least, limit):
        n = {}
        for p in set().union(*(seen.get(s, set()) for s in inside)):
            for s in seers[p] - inside:
                n[s] = n.get(s, 0) + 1
        order = sorted((k for k in n if n[k] >= least), key=lambda k: -n[k])
        if len(order) > limit > 0 and n[order[limit - 1]] == n[order[limit]]:
            raise Skip("tied neighbors")
        return set().union(*(whole[s] for s in order[:limit]))

    inside = set(whole[center])
    for _ in range(1, radius):
        if len(inside) >= most:
            break
        inside |= near(inside, common, most - len(inside))
    return inside, near(inside, 1, 10**6) - inside


@CHECK.sub("neighborhood", st.fixed_dictionaries({
    "seed": seeds, "rigs": st.sampled_from([0, 0, 1, 2]), "instances": st.sampled_from([25, 12, 6, 1]), "points": st.sampled_from([60, 150, 20, 0]),
    "seen": st.sampled_from([0.2, 0.4]), "radius": st.sampled_from([2, 3, 1, 4, 0]), "common": st.sampled_from([1, 4, 10]), "most": st.sampled_from([30, 8, 3, 1])}),
    quick=1200, rule="there are images inside, at the boundary and elsewhere")
def neighborhood(case, t):
    g = rng(case["seed"])
    r = types.Reconstruction()
    r.add_camera(pygeometry.Camera.create_perspective(0.9, 0, 0))
    cam = list(r.cameras.values())[0]
    cam.id = "c0"
    r = types.Reconstruction()
    r.add_camera(cam)
    F = {"inst": {}, "obs": []}
    for j in range(case["rigs"]):
        r.add_rig_camera(pymap.RigCamera(pygeometry.Pose(), f"r{j}"))
    for k in range(case["instances"]):
        if case["rigs"]:
            r.add_rig_instance(pymap.RigInstance(f"i{k}"))
            for j in range(case["rigs"]):
                r.create_shot(f"s{k}_{j}", "c0", rig_camera_id=f"r{j}", rig_instance_id=f"i{k}")
            F["inst"][f"i{k}"] = {"shots": [f"s{k}_{j}" for j in range(case["rigs"])]}
        else:
            r.create_shot(f"s{k}", "c0", pygeometry.Pose())
            F["inst"][f"s{k}"] = {"shots": [f"s{k}"]}
    shots = sorted(s for i in F["inst"].values() for s in i["shots"])
    n = 0
    for p in range(case["points"]):
        r.create_point(f"p{p}", np.zeros(3))
        for s in shots:
            # neighbors in the list see common points
            if g.random() < case["seen"] * (2.0 if abs(shots.index(s) / len(shots) - p / case["points"]) < 0.15 else 0.03):
                r.add_observation(s, f"p{p}", pymap.Observation(0.1, 0.1, 1.0, 0, 0, 0, n))
                F["obs"].append({"shot": s, "point": f"p{p}"})
                n += 1
    center = shots[int(g.integers(len(shots)))]
    inside, edge = around(F, center, case["radius"], case["common"], case["most"])
    t.nontrivial(len(inside) > 1 and edge and len(inside | edge) < len(shots))
    a, b = pysfm.BAHelpers.shot_neighborhood_ids(r.map, center, case["radius"], case["common"], case["most"])
    check(set(a) == inside, "interior of", center, sorted(a), "expected", sorted(inside))
    check(set(b) == edge, "boundary of", center, sorted(b), "expected", sorted(edge))
    if case["rigs"] < 2:
        a, b = orec.shot_neighborhood(r, center, case["radius"], case["common"], case["most"])
        check(set(a) == inside and set(b) == edge, "neighborhood in Python", sorted(a), sorted(b), "expected", sorted(inside), sorted(edge))


@CHECK.sub("alignment", st.fixed_dictionaries({**base, "bias": st.just(False), "instances": st.sampled_from([1, 2, 3, 5]), "line": st.booleans(), "points": st.just(0),
                                               "gcps": st.sampled_from([0, 1, 2, 4, 8]), "gcp_seen": st.sampled_from([0.2, 0.6, 1.0])}), quick=1200,
           rule="control points that cannot be used, or images on a line")
def alignment(case, t):
    if case["line"]:
        case = dict(case, amp=0.0)
    g, r, F, gcps, _ = build(case)
    if case["line"]:
        d = g.normal(size=3)
        for k, (iid, i) in enumerate(F["inst"].items()):
            i["value"] = [i["value"][0], d * k + (0 if case["noise"] else 1e-3 * g.normal(size=3))]
            r.rig_instances[iid].pose = pose_of(i["value"])
    c = settings(case, g)
    P = problem(F)
    want = detected(F, P, r.reference, c)
    t.nontrivial(case["line"] or any(p["lla"] is None or triangulated(P, F, p) is None for p in F["gcp"]))
    t.label(want)
    got = pysfm.BAHelpers.detect_alignment_constraints(r.map, c, gcps)
    check(got == want, "detected", got, "but the constraints call for", want)
