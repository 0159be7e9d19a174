"""C17: steps that grow and clean a reconstruction keep what the images support and nothing else."""

import itertools
import math

import numpy as np
import scenes
from gen import grid, rng, rodrigues, rot_angle, seeds, st
from harness import Check, Skip, check
from opensfm import geo, multiview, pygeometry, pymap, pysfm, reconstruction as orec, reconstruction_helpers, types

CHECK = Check("C17")
CHECK.assumptions = ["camera models (C02), poses (C03)", "robust estimation of single poses and similarities (C05, C06)"]
layouts = st.sampled_from(["street", "aerial", "orbit"])
kinds = st.sampled_from(["perspective", "brown", "fisheye", "spherical"])


def build(s, names, points=(), observed=True):
    """A reconstruction of images of a scene at their true poses."""
    r = types.Reconstruction()
    for c in s.cameras.values():
        r.add_camera(c)
    if s.rig:
        for j, (A, c) in enumerate(s.rig_poses):
            r.add_rig_camera(pymap.RigCamera(pygeometry.Pose(A, -A @ c), f"rc{j}"))
    for k, n in enumerate(s.names):
        if n not in names:
            continue
        if s.rig:
            i = s.instance[k]
            j = k % s.rig
            r.add_rig_instance(pymap.RigInstance(i))
            r.create_shot(n, s.camera_of[k], None, f"rc{j}", i)
            r.rig_instances[i].update_instance_pose_with_shot(n, pygeometry.Pose(s.R[k], -s.R[k] @ s.o[k]))
        else:
            r.create_shot(n, s.camera_of[k], pygeometry.Pose(s.R[k], -s.R[k] @ s.o[k]))
    for i in points:
        r.create_point(str(i), s.X[i])
    if observed:
        ids = {}
        for (n, i), (q, _) in s.observations.items():
            f = ids[n] = ids.get(n, -1) + 1
            if n in names and i in points:
                r.add_observation(n, str(i), pymap.Observation(float(q[0]), float(q[1]), 0.002, 1, 2, 3, f))
    return r


def bearing(s, k, q):
    return np.asarray(s.cameras[s.camera_of[k]].pixel_bearing(np.array(q, float)))


def observed(r):
    """The observations of a reconstruction: point -> images."""
    return {p: {x.id for x in lm.get_observations()} for p, lm in r.points.items()}


@CHECK.sub("resection", st.fixed_dictionaries({
    "seed": seeds, "layout": layouts, "kind": kinds, "n": st.sampled_from([4, 6]), "points": st.sampled_from([12, 60, 150]), "outliers": st.sampled_from([0, 0, 0.2]), "rig": st.sampled_from([0, 0, 2]),
    "known": st.sampled_from([1.0, 0.5, 0.08]), "min": st.sampled_from([5, 10, 25, 400])}), quick=220, rule="the image is added")
def resection(c, t):
    """An image is added, with its rig, if enough reconstructed points agree on its pose, with exactly those points."""
    g = rng(c["seed"])
    s = scenes.make(g, c["layout"], c["n"], c["points"], c["kind"], noise=1e-4, outliers=c["outliers"], rig=c["rig"])
    data = scenes.write(s, t.tmpdir() + "/d")
    m = scenes.tracks_of(s)
    new = s.names[int(g.integers(len(s.names)))]
    k = s.names.index(new)
    group = {n for q, n in enumerate(s.names) if s.instance[q] == s.instance[k]} if c["rig"] else {new}
    names = set(s.names) - group
    pts = {i for i in range(len(s.X)) if g.random() < c["known"]}
    r = build(s, names, pts)
    seen = {i: s.observations[n, i] for n, i in s.observations if n == new and i in pts}
    if new not in m.get_shot_ids():
        raise Skip("sees nothing")
    before = observed(r)
    th = 0.004
    ok, added, rep = orec.resect(data, m, r, new, th, c["min"])
    check(rep["num_common_points"] == len(seen), "common points", rep, "not", len(seen))
    good = sum(not bad for _, bad in seen.values())
    if not ok:
        check(set(r.shots) == names and observed(r) == before and added == set(), "a refused image left something behind")
        # RANSAC on a few points may fall for a wrong pose
        check(len(seen) < 5 or good < c["min"] or good < 8, "refused although", good, "of", len(seen), "points agree", rep)
        t.label("refused")
        return
    check(len(seen) >= 5, "added from", len(seen), "points")
    check(added == group and set(r.shots) == names | group and set(rep["shots"]) == group, "added", added, "not", group)
    pose = r.shots[new].pose
    R, o = pose.get_rotation_matrix(), pose.get_origin()
    if good >= 8:
        d = np.median([np.linalg.norm(s.X[i] - s.o[k]) for i in seen])
        few = 3 if good < 25 else 1
        check(rot_angle(R @ s.R[k].T) < 0.03 * few and np.linalg.norm(o - s.o[k]) < 0.05 * few * d, "pose is off by", rot_angle(R @ s.R[k].T), np.linalg.norm(o - s.o[k]), "at distance", d)
    now = observed(r)
    count = 0
    for i, (q, _) in seen.items():
        v = R @ (s.X[i] - o)
        e = np.linalg.norm(v / np.linalg.norm(v) - bearing(s, k, q))
        if abs(e - th) > 1e-9:
            check((new in now[str(i)]) == (e < th), "point", i, "at error", e, "is" + ("" if new in now[str(i)] else " not"), "an observation")
        count += new in now[str(i)]
    check(count == rep["num_inliers"] >= c["min"], "inliers", rep["num_inliers"], "observations", count, "minimum", c["min"])
    for p, ims in before.items():
        check(now[p] - group == ims and np.array_equal(r.points[p].coordinates, s.X[int(p)]), "point", p, "changed")
    for n in group:
        q = s.names.index(n)
        P = r.shots[n].pose
        want = s.R[q] @ s.R[k].T @ R
        check(rot_angle(P.get_rotation_matrix() @ want.T) < 1e-6, n, "is turned within the rig")
        check(np.linalg.norm((P.get_origin() - o) - R.T @ s.R[k] @ (s.o[q] - s.o[k])) < 1e-6, n, "moved within the rig")
        check(abs(r.shots[n].metadata.capture_time.value - (1000 + q)) < 1e-9, n, "metadata", r.shots[n].metadata.capture_time.value)
        check(np.allclose(r.shots[n].metadata.gps_position.value, s.gps[q], atol=1e-4), n, "gps position")
    check(c["rig"] or set(now) == set(before), "points appeared", set(now) - set(before))
    t.nontrivial()
    t.label(f"rig {c['rig']}")


@CHECK.sub("triangulation", st.fixed_dictionaries({
    "seed": seeds, "layout": layouts, "kind": kinds, "n": st.sampled_from([3, 6, 9]), "type": st.sampled_from(["FULL", "ROBUST"]), "outliers": st.sampled_from([0, 0, 0.1]), "angle": st.sampled_from([0.5, 1.0, 5.0, 20.0]),
    "depth": st.sampled_from([0.001, 7.0]), "missing": st.sampled_from([0, 1, 2]), "all": st.booleans()}), quick=220, rule="points are triangulated and others not")
def triangulation(c, t):
    """Tracks with enough parallax and depth become points at the right place, with the observations that agree; others do not."""
    g = rng(c["seed"])
    s = scenes.make(g, c["layout"], c["n"], 120, c["kind"], outliers=c["outliers"])
    m = scenes.tracks_of(s)
    names = set(s.names) - set(g.permutation(s.names)[: c["missing"]])
    old = {i for i in range(len(s.X)) if g.random() < 0.2}
    r = build(s, names, old)
    th = 0.006
    cfg = {"triangulation_threshold": th, "triangulation_min_ray_angle": c["angle"], "triangulation_min_depth": c["depth"], "triangulation_refinement_iterations": 10, "triangulation_type": c["type"]}
    before = observed(r)
    if c["all"]:
        rep = orec.retriangulate(m, r, cfg)
        check(rep["num_points_before"] == len(old) and rep["num_points_after"] == len(r.points), "report", rep)
        wanted = names
    else:
        wanted = set(g.permutation(sorted(names))[: max(1, len(names) // 2)])
        orec.triangulate_shot_features(m, r, wanted, cfg)
    now = observed(r)
    accepted = lost = recovered = 0
    for i in range(len(s.X)):
        p = str(i)
        seen = {n: v for (n, j), v in s.observations.items() if j == i and n in names}
        if not c["all"] and i in old:
            check(now[p] == before[p] and np.array_equal(r.points[p].coordinates, s.X[i]), "point", i, "was triangulated again")
            continue
        if len(seen) < 2 or not (set(seen) & wanted):
            check(p not in now, "point", i, "came from nowhere")
            continue
        ks = [s.names.index(n) for n in seen]
        rays = [s.R[k].T @ bearing(s, k, q) for k, (q, _) in zip(ks, seen.values())]
        bad = [b for _, b in seen.values()]
        if not any(bad):
            angles = [math.degrees(math.atan2(np.linalg.norm(np.cross(a, b)), a @ b)) for a, b in itertools.combinations(rays, 2)]
            top = max(min(a, 180 - a) for a in angles)
            far = min(np.linalg.norm(s.X[i] - s.o[k]) for k in ks)
            if c["type"] == "FULL":
                if abs(top - c["angle"]) < 1e-4 or abs(far - c["depth"]) < 1e-4:
                    continue
                want = top > c["angle"] and far > c["depth"]
                check((p in now) == want, "point", i, "is" + ("" if p in now else " not"), "there; largest angle", top, "least depth", far)
            else:
                # random pairs of rays: all or none qualify, or it is a matter of chance
                ok = [min(a, 180 - a) > c["angle"] and np.linalg.norm(s.X[i] - s.o[k]) > c["depth"] and np.linalg.norm(s.X[i] - s.o[q]) > c["depth"] for a, (k, q) in zip(angles, itertools.combinations(ks, 2))]
                edge = abs(top - c["angle"]) < 1e-4 or abs(far - c["depth"]) < 1e-4
                if edge:
                    continue
                if not any(ok):
                    check(p not in now, "point", i, "is there; largest angle", top, "least depth", far)
                if all(ok):
                    check(p in now, "point", i, "is not there; least angle", min(angles), "least depth", far)
            if p in now:
                e = np.linalg.norm(r.points[p].coordinates - s.X[i])
                check(e < 1e-4 * max(1, far), "point", i, "is off by", e)
                check(now[p] == set(seen), "point", i, "is seen in", now[p], "not", set(seen))
                accepted += 1
            else:
                lost += 1
        elif p in now:
            X = r.points[p].coordinates
            check(now[p] <= set(seen) and len(now[p]) >= 2, "observations of point", i, now[p])
            if c["type"] == "ROBUST":
                for n, k, ray in zip(seen, ks, rays):
                    v = X - s.o[k]
                    e = np.linalg.norm(v / np.linalg.norm(v) - ray)
                    if abs(e - th) > 1e-6:
                        check((n in now[p]) == (e < th), "point", i, "image", n, "error", e, "is" + ("" if n in now[p] else " not"), "an observation")
            else:
                check(now[p] == set(seen), "point", i, "lost observations")
        if c["type"] == "ROBUST" and sum(bad) == 1 and len(bad) >= 6:
            recovered += 1 if p in now and now[p] == {n for n, (_, b) in seen.items() if not b} else -1
    if c["angle"] <= 1.0 and c["depth"] < 1 and c["layout"] != "aerial":
        check(recovered >= 0, "most tracks with an outlier are lost or keep it", recovered)
    for p in now:
        for n in now[p]:
            ob = r.shots[n].get_observation(m.get_observation(n, p).id)
            check(np.array_equal(ob.point, m.get_observation(n, p).point) and np.array_equal(ob.color, m.get_observation(n, p).color) or (not c["all"] and int(p) in old), "observation of", p, "in", n)
    t.nontrivial(accepted > 0 and lost > 0 or recovered > 0)
    t.label(c["type"], "with outliers" if c["outliers"] else "clean")


@CHECK.sub("outliers", st.fixed_dictionaries({
    "seed": seeds, "type": st.sampled_from(["FIXED", "AUTO", "NONE"]), "fixed": st.sampled_from([0.002, 0.006, 0.02]), "ratio": st.sampled_from([1.0, 3.0]), "spread": st.sampled_from([0.001, 0.006, 0.5]),
    "points": st.sampled_from([0, 1, 5, 40, 40]), "images": st.sampled_from([2, 4, 8]), "subset": st.booleans(), "kind": st.sampled_from(["perspective", "spherical", "mixed"])}), quick=500, rule="observations are removed and others kept")
def outliers(c, t):
    """Observations beyond the threshold are removed, and points left with fewer than two; all others stay."""
    g = rng(c["seed"])
    r = types.Reconstruction()
    n = c["images"]
    dim = {}
    for kind in ("perspective", "spherical"):
        r.add_camera(scenes.make_camera(kind, 0.8, g, kind))
    for k in range(n):
        kind = c["kind"] if c["kind"] != "mixed" else str(g.choice(["perspective", "spherical"]))
        r.create_shot(f"i{k}", kind, pygeometry.Pose())
        dim[f"i{k}"] = 3 if kind == "spherical" else 2  # errors of panoramas are differences of bearings
    errors = {}
    for p in range(c["points"]):
        r.create_point(str(p), [0.0, 0, 5])
        ims = g.permutation(n)[: g.integers(2, n + 1)]
        e = {}
        for k in ims:
            r.add_observation(f"i{k}", str(p), pymap.Observation(0.1, 0.1, 0.002, 1, 2, 3, p))
            e[f"i{k}"] = g.normal(0, c["spread"], dim[f"i{k}"]) * (10 if g.random() < 0.1 else 1)
        r.points[str(p)].reprojection_errors = e
        errors[str(p)] = e
    cfg = {"bundle_outlier_filtering_type": c["type"], "bundle_outlier_fixed_threshold": c["fixed"], "bundle_outlier_auto_ratio": c["ratio"]}
    if c["type"] == "FIXED":
        th = c["fixed"]
    elif c["type"] == "AUTO":
        E = [v for e in errors.values() for v in e.values()]
        d = max(map(len, E), default=0)
        E = np.array([np.r_[v, np.zeros(d - len(v))] for v in E])
        mean = np.median(E, axis=0) if len(E) else 0.0
        std = 1.486 * np.median(np.linalg.norm(E - mean, axis=1)) if len(E) else 0.0
        th = c["ratio"] * np.linalg.norm(mean + std)
    else:
        th = 1.0
    some = sorted(errors)[::2]
    points = {p: r.points[p] for p in some} if c["subset"] else None
    judged = set(some) if c["subset"] else set(errors)
    if any(abs(np.linalg.norm(v) - th) < 1e-12 for e in errors.values() for v in e.values()):
        raise Skip("on the threshold")
    want, removed = {}, 0
    for p, e in errors.items():
        keep = {k for k, v in e.items() if p not in judged or np.linalg.norm(v) <= th}
        removed += len(e) - len(keep)
        if len(keep) >= 2 or len(keep) == len(e):
            want[p] = keep
    got = orec.remove_outliers(r, cfg, list(points) if points and g.random() < 0.5 else points)
    check(got == removed, "removed", got, "not", removed)
    now = observed(r)
    check(now == want, "left are", now, "not", want)
    for k in range(n):
        seen = {lm.id for lm in r.shots[f"i{k}"].get_valid_landmarks()}
        check(seen == {p for p in want if f"i{k}" in want[p]}, "image", k, "sees", seen)
    t.nontrivial(0 < removed < sum(map(len, errors.values())))
    t.label(c["type"])


@CHECK.sub("conditioning", st.fixed_dictionaries({"seed": seeds, "layout": layouts, "kind": kinds, "n": st.sampled_from([2, 4, 8]), "points": st.sampled_from([3, 20, 80]), "angle": st.sampled_from([0.0, 1.0, 5.0, 30.0]), "det": st.sampled_from([1e-15, 1e-4]),
                                                  "thin": st.booleans()}),
           quick=220, rule="points are removed and others kept")
def conditioning(c, t):
    """Points seen under small angles or whose uncertainty is much elongated are removed, and only those."""
    g = rng(c["seed"])
    s = scenes.make(g, c["layout"], c["n"], c["points"], c["kind"], noise=1e-4)
    pts = set(range(len(s.X)))
    if c["thin"]:  # some are seen by two images only
        for i in list(pts):
            ims = [k for k in s.observations if k[1] == i]
            for k in ims[2:] if g.random() < 0.6 else []:
                del s.observations[k]
    r = build(s, set(s.names), pts)
    moved = g.normal(0, 0.01, s.X.shape)
    for i in pts:
        r.points[str(i)].coordinates = s.X[i] + moved[i]
    conds, out, unsure = {}, set(), set()
    for i in pts:
        X = s.X[i] + moved[i]
        ks = [s.names.index(n) for n, j in s.observations if j == i]
        rays = [(X - s.o[k]) / np.linalg.norm(X - s.o[k]) for k in ks]
        top = max([math.degrees(math.atan2(np.linalg.norm(np.cross(a, b)), a @ b)) for a, b in itertools.combinations(rays, 2)], default=-1)
        if abs(top - c["angle"]) < 1e-6:
            raise Skip("on the threshold")
        if top <= c["angle"]:
            out.add(str(i))
            continue
        H = np.zeros((3, 3))
        for k in ks:
            cam = s.cameras[s.camera_of[k]]
            f = lambda P: np.asarray(cam.project(s.R[k] @ (P - s.o[k])))
            h = 1e-5 * np.linalg.norm(X - s.o[k])
            J = np.stack([(f(X + d) - f(X - d)) / (2 * h) for d in np.eye(3) * h], 1)
            if np.abs(J).max() * np.linalg.norm(X - s.o[k]) > 50:
                raise Skip("across the seam of a panorama")
            H += J.T @ J
        det = np.linalg.det(H)
        if abs(det / c["det"] - 1) < 1e-3:
            raise Skip("on the threshold")
        if det < c["det"]:
            out.add(str(i))
            continue
        e = np.linalg.eigvalsh(H)
        if e[0] < 1e-8 * e[2]:
            raise Skip("too ill conditioned for the reference")
        conds[str(i)] = min(math.sqrt(e[2] / e[0]), 1000)
    if conds:
        v = np.array(list(conds.values()))
        th = v.mean() + v.std()
        if (np.abs(v - th) < 1e-4 * th).any():
            if v.std() > 1e-3 * v.mean():
                raise Skip("on the threshold")
            raise Skip("all alike")
        out |= {p for p, x in conds.items() if x > th}
    got = pysfm.filter_badly_conditioned_points(r.map, c["angle"], c["det"])
    left = set(r.points)
    check(left == {str(i) for i in pts} - out, "removed too much", sorted({str(i) for i in pts} - out - left), "too little", sorted(left & out))
    check(got == len(out), "reported", got, "not", len(out))
    for k, n in enumerate(s.names):
        check({lm.id for lm in r.shots[n].get_valid_landmarks()} == {str(i) for (x, i) in s.observations if x == n} & left, "image", n)
    t.nontrivial(bool(out) and bool(left))


@CHECK.sub("isolated", st.fixed_dictionaries({"seed": seeds, "points": st.sampled_from([0, 1, 7, 8, 9, 30, 200]), "k": st.sampled_from([1, 3, 7, 7]), "far": st.sampled_from([0.0, 0.05, 0.3]), "same": st.booleans()}), quick=400, rule="points are removed")
def isolated(c, t):
    """Points whose distances to their neighbors stand out are removed."""
    g = rng(c["seed"])
    r = types.Reconstruction()
    n = c["points"]
    X = g.normal(0, 1, (n, 3))
    far = g.random(n) < c["far"]
    X[far] *= 20
    if c["same"] and n > 4:
        X[g.integers(n)] = X[g.integers(n)]
    X = X.astype(np.float32).astype(float)
    for i in range(n):
        r.create_point(str(i), X[i])
    got = pysfm.remove_isolated_points(r.map, c["k"])
    left = {int(p) for p in r.points}
    if n <= c["k"]:
        check(got == 0 and len(left) == n, "removed from", n, "points")
        return
    D = ((X[:, None] - X[None]) ** 2).sum(2)
    a = np.sort(D, axis=1)[:, 1 : c["k"] + 1].mean(1)
    th = a.mean() + 1.25 * a.std()
    for i in range(n):
        if abs(a[i] - th) > 1e-4 * th:
            check((i in left) == (a[i] <= th), "point", i, "with mean distance", a[i], "of threshold", th, "is" + ("" if i in left else " not"), "there")
    check(got == n - len(left), "reported", got)
    t.nontrivial(got > 0)


@CHECK.sub("tracks", st.fixed_dictionaries({"seed": seeds, "images": st.sampled_from([1, 3, 8]), "tracks": st.sampled_from([0, 5, 40])}), quick=300, rule="some images see tracks")
def tracks(c, t):
    """Counting reconstructed tracks per image, and adding and removing connections."""
    g = rng(c["seed"])
    m = pymap.TracksManager()
    have = {}
    for k in range(c["images"]):
        for j in range(c["tracks"]):
            if g.random() < 0.4:
                m.add_observation(f"i{k}", f"t{j}", pymap.Observation(0.1 * k, 0.01 * j, 0.1, k, j, 3, j))
                have.setdefault(f"i{k}", set()).add(f"t{j}")
    r = types.Reconstruction()
    r.add_camera(scenes.make_camera("perspective", 0.8, g))
    pts = {f"t{j}" for j in range(c["tracks"] + 3) if g.random() < 0.5}
    for p in pts:
        r.create_point(p, [0.0, 0, 1])
    shots = [f"i{k}" for k in range(c["images"]) if g.random() < 0.4]
    for n in shots:
        r.create_shot(n, "cam", pygeometry.Pose())
    got = orec.reconstructed_points_for_images(m, r, set(have))
    check(dict(got) == {n: len(v & pts) for n, v in have.items() if n not in shots} and len(got) == len(dict(got)), "counts", got)
    check([x for _, x in got] == sorted([x for _, x in got], reverse=True), "order", got)
    sub = [n for n in have if g.random() < 0.6]
    check(pysfm.count_tracks_per_shot(m, sub, list(pts) * 2) == {n: len(have[n] & pts) for n in sub}, "counts of some")
    im = f"i{g.integers(c['images'] + 1)}"
    new = [f"n{j}" for j in range(int(g.integers(4)))]
    pysfm.add_connections(m, im, new)
    if new:
        have.setdefault(im, set()).update(new)
    check({n: set(m.get_shot_observations(n)) for n in m.get_shot_ids()} == have, "after adding")
    gone = [x for x in sorted(have.get(im, ())) if g.random() < 0.5]
    pysfm.remove_connections(m, im, gone)
    for x in gone:
        have[im].discard(x)
        check(x not in m.get_track_ids() or im not in m.get_track_observations(x), "connection", x, "is still there")
    for n in have:
        if have[n]:
            check(set(m.get_shot_observations(n)) == have[n], "after removing", n)
    t.nontrivial(bool(have))


@CHECK.sub("pair", st.fixed_dictionaries({"seed": seeds, "layout": st.sampled_from(["street", "orbit"]), "kind": kinds, "points": st.sampled_from([30, 150]), "outliers": st.sampled_from([0, 0.15]), "min": st.sampled_from([10, 20, 500]), "gps": st.booleans()}),
           quick=120, rule="a reconstruction is started")
def pair(c, t):
    """A reconstruction started from two images has their true relative pose and true points up to scale."""
    g = rng(c["seed"])
    s = scenes.make(g, c["layout"], 2 + int(g.integers(3)), c["points"], c["kind"], noise=5e-5, outliers=c["outliers"])
    data = scenes.write(s, t.tmpdir() + "/d", {"five_point_algo_min_inliers": c["min"]}, gps=c["gps"])
    m = scenes.tracks_of(s)
    a, b = 0, len(s.names) - 1
    n1, n2 = s.names[a], s.names[b]
    common = [i for i in range(len(s.X)) if (n1, i) in s.observations and (n2, i) in s.observations]
    if len(common) < 20:
        raise Skip("too few common points")
    p1, p2 = (np.array([s.observations[n, i][0] for i in common]) for n in (n1, n2))
    data.init_reference()
    r, rep = orec.bootstrap_reconstruction(data, m, n1, n2, p1, p2)
    check(tuple(rep["image_pair"]) == (n1, n2) and rep["common_tracks"] == len(common), "report", rep)
    good = [i for i in common if not s.observations[n1, i][1] and not s.observations[n2, i][1]]
    if r is None:
        check(c["min"] > len(good) * 0.9, "not started from", len(good), "good points", rep)
        t.label("refused")
        return
    check(set(r.shots) == {n1, n2}, "images", set(r.shots))
    check(rep["decision"] == "Success" and len(r.points) >= c["min"], "points", len(r.points), rep)
    P1, P2 = r.shots[n1].pose, r.shots[n2].pose
    rel = P2.get_rotation_matrix() @ P1.get_rotation_matrix().T
    check(rot_angle(rel @ (s.R[b] @ s.R[a].T).T) < 0.25, "relative rotation is off by", rot_angle(rel @ (s.R[b] @ s.R[a].T).T))
    d = P1.get_rotation_matrix() @ (P2.get_origin() - P1.get_origin())
    w = s.R[a] @ (s.o[b] - s.o[a])
    ang = math.atan2(np.linalg.norm(np.cross(d, w)), d @ w)
    check(ang < 0.6, "direction of the baseline is off by", ang)
    if c["gps"]:
        check(abs(np.linalg.norm(d) / np.linalg.norm(w) - 1) < 0.1, "length of the baseline", np.linalg.norm(d), "not", np.linalg.norm(w))
    sc = np.linalg.norm(w) / np.linalg.norm(d)
    off = []
    for p, lm in r.points.items():
        i = int(p)
        check(i in common, "point", p, "is not common")
        check({x.id for x in lm.get_observations()} == {n1, n2}, "observations of", p)
        if i in good:
            X = P1.get_rotation_matrix() @ (lm.coordinates - P1.get_origin()) * sc
            W = s.R[a] @ (s.X[i] - s.o[a])
            off.append(np.linalg.norm(X - W) / np.linalg.norm(W))
    check(np.median(off) < 0.9, "points are off by", np.median(off))
    # the two-view pose is only as good as its inliers' threshold, but points must agree with it
    rep = []
    for p, lm in r.points.items():
        for k, P in ((a, P1), (b, P2)):
            v = P.get_rotation_matrix() @ (lm.coordinates - P.get_origin())
            rep.append(np.linalg.norm(v / np.linalg.norm(v) - bearing(s, k, s.observations[s.names[k], int(p)][0])))
    check(np.median(rep) < 0.004 and max(rep) < 0.02, "points do not project to their observations", np.median(rep), max(rep))
    check(len(off) >= 0.8 * len(good), "only", len(off), "points of", len(good))
    t.nontrivial()


@CHECK.sub("common", st.fixed_dictionaries({"seed": seeds, "points": st.sampled_from([5, 7, 40]), "outliers": st.sampled_from([0, 0.25]), "images": st.sampled_from([1, 4])}), quick=250, rule="the reconstructions are aligned")
def common(c, t):
    """Two reconstructions are related by the similarity of their common points, found through common features."""
    g = rng(c["seed"])
    n = c["points"]
    X = g.normal(0, 5, (n, 3))
    sc, A, b = float(g.uniform(0.2, 3)), rodrigues(g.normal(0, 1, 3)), g.normal(0, 10, 3)
    bad = g.random(n) < c["outliers"]
    Y = sc * X @ A.T + b
    Y[bad] += g.normal(0, 1, (bad.sum(), 3)) * 10 + 5
    rs, ms = [types.Reconstruction(), types.Reconstruction()], [pymap.TracksManager(), pymap.TracksManager()]
    only = [set(), set()]
    for j, (r, m, P) in enumerate(zip(rs, ms, (X, Y))):
        r.add_camera(scenes.make_camera("perspective", 0.8, g))
        for k in range(c["images"] + 1):
            if k < c["images"] or j == 0:
                r.create_shot(f"i{k}", "cam", pygeometry.Pose())
        for i in range(n):
            if g.random() < 0.1:
                only[j].add(i)  # this one has not got the point
            else:
                r.create_point(f"{'ab'[j]}{i}", P[i])
    where = {i: sorted(set(g.integers(0, c["images"], 3).tolist())) for i in range(n)}
    for j, m in enumerate(ms):
        for i, ks in where.items():
            for k in ks:
                m.add_observation(f"i{k}", f"{'ab'[j]}{i}", pymap.Observation(0, 0, 1, 1, 1, 1, i))
            m.add_observation("elsewhere", f"{'ab'[j]}{i}", pymap.Observation(0, 0, 1, 1, 1, 1, i))
        m.add_observation("i0", f"{'ab'[j]}x", pymap.Observation(0, 0, 1, 1, 1, 1, 1000 + j))
    want = {(f"a{i}", f"b{i}") for i in range(n) if i not in only[0] and i not in only[1]}
    got = orec.compute_common_tracks(rs[0], rs[1], ms[0], ms[1])
    check(set(got) == want and len(got) == len(want), "common tracks", got, "not", want)
    ok, T, inl = orec.resect_reconstruction(rs[0], rs[1], ms[0], ms[1], 0.1, 5)
    good = {(f"a{i}", f"b{i}") for i in range(n) if not bad[i]} & want
    if len(want) <= 6:
        check(not ok and list(inl) == [], "aligned on", len(want), "tracks")
        return
    if len(good) < 6 or len(good) < 0.55 * len(want):
        return
    check(ok, "not aligned on", len(good), "of", len(want))
    check(set(inl) == good and len(inl) == len(good), "inliers", inl, "not", good)
    S = np.eye(4)
    S[:3, :3], S[:3, 3] = sc * A, b
    check(np.allclose(T, S, atol=1e-4 * max(1, sc)), "similarity", T, "not", S)
    t.nontrivial()


@CHECK.sub("neighbors", st.fixed_dictionaries({"seed": seeds, "images": st.sampled_from([2, 5, 9]), "points": st.sampled_from([5, 40]), "radius": st.sampled_from([1, 2, 3]), "min": st.sampled_from([1, 3, 8]), "most": st.sampled_from([1, 3, 30])}), quick=300, rule="the neighborhood is not everything")
def neighbors(c, t):
    """The neighborhood of an image is the images within a number of steps of common points; its boundary shares points with it."""
    g = rng(c["seed"])
    n = c["images"]
    r = types.Reconstruction()
    r.add_camera(scenes.make_camera("perspective", 0.8, g))
    for k in range(n):
        r.create_shot(f"i{k}", "cam", pygeometry.Pose())
    obs = {}
    for p in range(c["points"]):
        r.create_point(f"p{p}", [0.0, 0, 1])
        w = int(g.integers(n))
        for k in {w, (w + 1) % n, int(g.integers(n)) if g.random() < 0.2 else w}:
            r.add_observation(f"i{k}", f"p{p}", pymap.Observation(0, 0, 1, 1, 1, 1, p))
            obs.setdefault(f"p{p}", set()).add(f"i{k}")
    got, edge = orec.shot_neighborhood(r, "i0", c["radius"], c["min"], c["most"])

    def shared(inside):
        count = {}
        for ims in obs.values():
            if ims & inside:
                for k in ims - inside:
                    count[k] = count.get(k, 0) + 1
        return count

    # grow with explicit ties: check each step is a legal choice
    inside = {"i0"}
    for _ in range(1, c["radius"]):
        room = c["most"] - len(inside)
        if room <= 0:
            break
        ok = {k: v for k, v in shared(inside).items() if v >= c["min"]}
        if len(ok) <= room:
            inside |= set(ok)
            continue
        vals = sorted(ok.values(), reverse=True)
        must = {k for k, v in ok.items() if v > vals[room - 1] or vals[room - 1] != vals[room] and v >= vals[room - 1]}
        if vals[room - 1] == vals[room]:
            check(must <= got, "closest images", must, "are not in", got)
            t.label("tie")
            return
        inside |= must
    check(got == inside, "inside", got, "not", inside)
    check(edge == set(shared(inside)), "boundary", edge, "not", set(shared(inside)))
    t.nontrivial(len(inside | edge) < n)


@CHECK.sub("realign", st.fixed_dictionaries({"seed": seeds, "images": st.sampled_from([1, 4, 8]), "points": st.sampled_from([0, 10, 50]), "update": st.booleans(), "rig": st.sampled_from([0, 0, 2]), "moved": st.sampled_from([0, 3e-5, 2e-4])}), quick=250, rule="points are moved")
def realign(c, t):
    """A map realigned to another takes its poses, cameras and scales; points follow their nearest image; images the other has not are gone."""
    g = rng(c["seed"])
    lla = (41.0, 2.0, 100.0)
    other = (41.0 + c["moved"], 2.0 - c["moved"], 100.0 + 1e5 * c["moved"])
    n = c["images"]
    size = max(1, c["rig"])
    names = [f"i{k}_{j}" for k in range(n) for j in range(size)]
    rs, poses = [], []
    offs = [(np.eye(3), np.zeros(3))] + [(rodrigues([0, 0.4, 0.1]), np.array([0.2, 0.0, 0.1]))]
    missing = {f"i{k}" for k in range(n) if g.random() < 0.2}  # not in from
    scale = {x: float(g.choice([1.0, 0.0, 0.5, 2.0])) for x in names}
    cams = [scenes.make_camera("perspective", f, g) for f in (0.7, 0.9)]
    for which in (0, 1):  # from, to
        r = types.Reconstruction()
        r.reference = geo.TopocentricConverter(*(lla if which == 0 else other))
        r.add_camera(cams[which])
        for j in range(size):
            A, o = offs[j]
            r.add_rig_camera(pymap.RigCamera(pygeometry.Pose(A, -A @ o), f"rc{j}"))
        P = {}
        for k in range(n):
            if which == 0 and f"i{k}" in missing:
                continue
            R, o = rodrigues(g.normal(0, 1, 3)), g.normal(0, 5, 3)
            r.add_rig_instance(pymap.RigInstance(f"r{which}_{k}"))
            for j in range(size):
                sh = r.create_shot(f"i{k}_{j}", "cam", None, f"rc{j}", f"r{which}_{k}")
                if which == 0:
                    sh.scale = scale[sh.id]
                    sh.merge_cc = 3 + k
            r.rig_instances[f"r{which}_{k}"].pose = pygeometry.Pose(R, -R @ o)
            for j in range(size):
                A, d = offs[j]
                P[f"i{k}_{j}"] = (A @ R, o + R.T @ d, R, o)
        rs.append(r)
        poses.append(P)
    src, dst = rs
    X = g.normal(0, 8, (c["points"], 3))
    seen = {}
    for i in range(len(X)):
        dst.create_point(f"p{i}", X[i])
        seen[i] = sorted({names[int(q)] for q in g.integers(0, len(names), 4)})
        for x in seen[i]:
            dst.add_observation(x, f"p{i}", pymap.Observation(0, 0, 1, 1, 1, 1, i))
    shift = np.array(geo.TopocentricConverter(*other).to_topocentric(*lla))
    params = np.array(cams[0].get_parameters_values())
    want = X.copy()
    moved = 0
    if c["update"]:
        for i in range(len(X)):
            near = [(np.linalg.norm(X[i] - poses[1][x][1]), x) for x in seen[i] if x in poses[0]]
            if not near:
                continue
            near.sort()
            if len(near) > 1 and near[1][0] - near[0][0] < 1e-9:
                raise Skip("tie")
            x = near[0][1]
            Rf, of = poses[0][x][:2]
            Rt, ot = poses[1][x][:2]
            want[i] = (1 / scale[x] if scale[x] else 1.0) * Rf.T @ Rt @ (X[i] - ot) + of + shift
            moved += 1
    pysfm.realign_maps(src.map, dst.map, c["update"])
    there = {x for x in names if x in poses[0]}
    check(set(dst.shots) == there, "images", set(dst.shots), "not", there)
    for x in there:
        R, o = poses[0][x][:2]
        p = dst.shots[x].pose
        check(rot_angle(p.get_rotation_matrix() @ R.T) < 1e-6 and np.linalg.norm(p.get_origin() - o - shift) < 1e-6, "pose of", x, p.get_origin(), "not", o + shift)
        check(dst.shots[x].scale == scale[x] and dst.shots[x].merge_cc == 3 + int(x[1:].split("_")[0]), "attributes of", x)
    if there:
        check(np.allclose(dst.cameras["cam"].get_parameters_values(), params), "camera")
    for i in range(len(X)):
        check(np.allclose(dst.points[f"p{i}"].coordinates, want[i], atol=1e-6), "point", i, dst.points[f"p{i}"].coordinates, "not", want[i])
        check({q.id for q in dst.points[f"p{i}"].get_observations()} == set(seen[i]) & there, "observations of point", i)
    t.nontrivial(moved > 0)


UPS = {1: [0, -1, 0], 2: [0, -1, 0], 3: [0, 1, 0], 4: [0, 1, 0], 5: [-1, 0, 0], 6: [-1, 0, 0], 7: [1, 0, 0], 8: [1, 0, 0]}


@CHECK.sub("metadata", st.fixed_dictionaries({"seed": seeds, "n": st.sampled_from([1, 4]), "altitude": st.booleans(), "some": st.sampled_from([0.5, 0.9])}), quick=250, rule="an image is placed with an orientation")
def metadata(c, t):
    """Images placed by their metadata alone are at their GPS position and oriented by their angles, or else by gravity and compass."""
    g = rng(c["seed"])
    has = lambda: g.random() < c["some"]
    s = scenes.make(g, "street", c["n"], 5, "perspective")
    ref = scenes.converter()
    ex = {}
    for n in s.names:
        e = {"orientation": int(g.integers(1, 9))}
        if has():
            x = g.normal(0, 200, 3)
            lat, lon, alt = ref.to_lla(*x)
            e["gps"] = {"latitude": lat, "longitude": lon}
            if has():
                e["gps"]["altitude"] = float(g.choice([alt, 20000.0]))
            if has():
                e["gps"]["dop"] = float(g.choice([0.0, 2.5]))
        if g.random() < 0.5:
            e["opk"] = {"omega": float(g.uniform(-180, 180)), "phi": float(g.uniform(-80, 80)), "kappa": float(g.uniform(-180, 180))}
            if has():
                e["opk"]["accuracy"] = 0.3
            if g.random() < 0.2:
                e["opk"].pop("phi")
        if has():
            e["compass"] = {"angle": float(g.uniform(0, 360))}
            if has():
                e["compass"]["accuracy"] = 7.0
        if g.random() < 0.4:
            d = g.normal(0, 1, 3) * [0.2, 1, 0.2]
            e["gravity_down"] = (d / np.linalg.norm(d)).tolist()
        if has():
            e["capture_time"] = float(g.integers(10**9))
        if has():
            e["skey"] = f"s{g.integers(9)}"
        ex[n] = e
    data = scenes.write(s, t.tmpdir() + "/d", {"use_altitude_tag": c["altitude"]}, gps=False, extra=ex)
    r = orec.helpers.reconstruction_from_metadata(data, s.names)
    check(set(r.shots) == {n for n in s.names if "gps" in ex[n]}, "images", set(r.shots))
    for n in s.names:
        e = ex[n]
        m = reconstruction_helpers.get_image_metadata(data, n)
        check(m.gps_position.has_value == ("gps" in e), "gps of", n)
        check(m.orientation.value == e["orientation"], "orientation of", n)
        if "gps" in e:
            alt = min(1e4, e["gps"].get("altitude", 2.0)) if c["altitude"] else 2.0
            pos = np.array(ref.to_topocentric(e["gps"]["latitude"], e["gps"]["longitude"], alt))
            check(np.allclose(m.gps_position.value, pos, atol=1e-6), "position of", n, m.gps_position.value, "not", pos)
            check(m.gps_accuracy.value == (e["gps"].get("dop", 15.0) or 15.0), "accuracy of", n)
        ang = e.get("opk", {})
        full = {"omega", "phi", "kappa"} <= set(ang)
        check(m.opk_angles.has_value == full, "angles of", n)
        if full:
            check(np.allclose(m.opk_angles.value, [ang["omega"], ang["phi"], ang["kappa"]]) and m.opk_accuracy.value == ang.get("accuracy", 1.0), "angles of", n)
        check(m.compass_angle.has_value == ("compass" in e) and (not m.compass_angle.has_value or m.compass_angle.value == e["compass"]["angle"]), "compass of", n)
        check(m.compass_accuracy.has_value == ("accuracy" in e.get("compass", {})), "compass accuracy of", n)
        check(m.gravity_down.has_value == ("gravity_down" in e), "gravity of", n)
        check(m.capture_time.value == e.get("capture_time", m.capture_time.value), "time of", n)
        check(m.sequence_key.has_value == ("skey" in e) and (not m.sequence_key.has_value or m.sequence_key.value == e["skey"]), "sequence of", n)
        if n not in r.shots:
            continue
        R, o = r.shots[n].pose.get_rotation_matrix(), r.shots[n].pose.get_origin()
        check(np.allclose(o, pos, atol=1e-6), n, "is at", o, "not", pos)
        if full:
            w, p, k = (math.radians(ang[x]) for x in ("omega", "phi", "kappa"))
            # photogrammetric axes: x right, y up, z backwards
            W = np.diag([1, -1, -1]) @ (rodrigues([w, 0, 0]) @ rodrigues([0, p, 0]) @ rodrigues([0, 0, k])).T
            check(rot_angle(R @ W.T) < 1e-6, n, "is turned as", R, "not", W)
        else:
            up = -np.array(e["gravity_down"]) if "gravity_down" in e else np.array(UPS[e["orientation"]], float)
            check(np.allclose(R.T @ up, [0, 0, 1], atol=1e-6), n, "up is", R.T @ up)
            f = R.T @ [0, 0, 1.0]
            a = math.radians(e.get("compass", {}).get("angle", 0.0))
            check(abs(math.atan2(f[0] * math.cos(a) - f[1] * math.sin(a), f[0] * math.sin(a) + f[1] * math.cos(a))) < 1e-6, n, "looks to", f, "not azimuth", a)
        t.nontrivial()
