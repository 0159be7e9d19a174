"""C10: reconstructions under histories of edits."""

import copy
import math
import pickle

import numpy as np
from gen import grid, rng, rodrigues, rotvec_of, seeds, st, ugrid, vec
from harness import Check, Skip, check
import maps
from opensfm import pygeometry, pymap, types

CHECK = Check("C10")
CHECK.assumptions = [
    "an image sees a point with one feature, and shows one point with a feature",
    "rig instances are removed when they have no images left",
]

ops = maps.ops_strategy()


@CHECK.sub(
    "history",
    st.fixed_dictionaries({"start": st.sampled_from(["rich", "base", "rich", "empty"]), "second": st.sampled_from(["base", "rich", "empty"]),
                           "ops": maps.histories(st.tuples(st.integers(0, 1), ops))}),
    quick=800, rule="observations and a rig of two images, or a transfer between reconstructions",
)
def history(c, t):
    """Two reconstructions are edited, copied, and given parts of each other."""
    recs = [[types.Reconstruction(), maps.Model()] for _ in range(2)]
    for (r, m), start in zip(recs, (c["start"], c["second"])):
        for op in maps.START[start]:
            maps.apply(op, r, m)
    kept = []
    rich = False
    for which, op in c["ops"]:
        r, m = recs[which]
        made = maps.apply(op, r, m, recs[1 - which])
        if made:
            kept.append((r, copy.deepcopy(m)))  # the original must not change with its copy
            recs[which] = list(made)
            rich = rich or bool(m.obs or m.shots)
        rich = rich or (m.obs and any(len(m.members(n)) > 1 for n in m.insts))
        maps.compare(*recs[which])
    for r, m in recs:
        maps.compare(r, m)
    for r, m in kept[-2:]:
        maps.compare(r, m)
    t.nontrivial(rich)
    t.label(*{o[0] for _, o in c["ops"]})


@CHECK.sub(
    "errors",
    st.fixed_dictionaries({
        "start": st.sampled_from(["rich", "base"]), "ops": maps.histories(maps.ops_strategy(with_transfers=False), (1, 8, 20)), "seed": seeds, "exact": st.booleans(),
        "obs": st.lists(st.tuples(st.sampled_from(maps.SHOTS + ["elsewhere"]), st.sampled_from(maps.POINTS + ["77"]), st.integers(0, 99)), max_size=25),
    }), quick=400, rule="points are seen and not seen",
)
def errors(c, t):
    """Tracks against a reconstruction: what is seen, and how far off it is."""
    r, m = types.Reconstruction(), maps.Model()
    for op in maps.START[c["start"]] + c["ops"]:
        maps.apply(op, r, m)
    g = rng(c["seed"])
    tm = pymap.TracksManager()
    obs = {}
    for s, p, k in c["obs"]:
        xy = g.uniform(-0.4, 0.4, 2)
        if c["exact"] and s in m.shots and p in m.points:
            q = r.shots[s].project(np.array(m.points[p][0]))
            xy = q if np.isfinite(q).all() and abs(q).max() < 2 else xy
        o = pymap.Observation(xy[0], xy[1], 0.002 + 0.001 * (k % 7), k, k, k, k)
        tm.add_observation(s, p, o)
        obs[s, p] = o
    want = {(s, p): o for (s, p), o in obs.items() if s in m.shots and p in m.points}
    valid = r.map.get_valid_observations(tm)
    check({(s, p): maps.obs_key(o) for s, d in valid.items() for p, o in d.items()} == {k: maps.obs_key(o) for k, o in want.items()}, "observations of the map")
    E = {k: r.map.compute_reprojection_errors(tm, k) for k in (pymap.ErrorType.Pixel, pymap.ErrorType.Normalized, pymap.ErrorType.Angular)}
    for e in E.values():
        check({(s, p) for s, d in e.items() for p in d} == set(want), "errors of", {(s, p) for s, d in e.items() for p in d}, "instead of", set(want))
    many = {}
    for (s, p), o in want.items():
        X = np.array(m.points[p][0])
        R, tr = m.pose(m.shots[s])
        cam = r.cameras[m.shots[s].cam]
        Xc = R @ X + tr
        if np.linalg.norm(Xc) < 1e-3 or cam.projection_type in ("perspective", "brown", "radial", "simple_radial", "dual") and abs(Xc[2]) < 1e-3:
            continue
        q = cam.project(Xc)
        a = r.shots[s].project(X)
        if not np.isfinite(q).all() or abs(q).max() > 50:
            continue
        check(np.allclose(a, q, atol=1e-7 * (1 + abs(q).max())), "projection of", p, "in", s, a, q)
        many.setdefault(s, []).append((X, a))
        e = E[pymap.ErrorType.Pixel][s][p]
        check(np.allclose(e, np.array(o.point) - q, atol=1e-7 * (1 + abs(q).max())), "error of", p, "in", s, e, np.array(o.point) - q)
        check(np.allclose(E[pymap.ErrorType.Normalized][s][p] * o.scale, e, atol=1e-9 * (1 + abs(e).max())), "normalized error")
        b = R.T @ cam.pixel_bearing(np.array(o.point))
        check(np.allclose(r.shots[s].bearing(np.array(o.point)), b, atol=1e-9), "bearing")
        d = X + R.T @ tr
        ang = math.atan2(np.linalg.norm(np.cross(b, d)), b @ d)
        got = E[pymap.ErrorType.Angular][s][p]
        check(np.isfinite(got).all() and abs(got - ang).max() < 1e-6, "angular error", got, "instead of", ang)
    for s, xs in many.items():
        check(np.allclose(r.shots[s].project_many(np.array([x for x, _ in xs])), [a for _, a in xs], atol=1e-9), "many projections")
        pts = np.array([obs[q].point for q in obs if q[0] == s])
        check(np.allclose(r.shots[s].bearing_many(pts), [r.shots[s].bearing(x) for x in pts], atol=1e-12), "many bearings")
    # connect them
    r.map.clear_observations_and_landmarks()
    for p, (xyz, _) in m.points.items():
        r.create_point(p, np.array(xyz))
    seen = set()
    keep = pymap.TracksManager()
    m.obs = {}
    for (s, p), o in obs.items():
        if (s, o.id) not in seen:  # one feature, one point
            seen.add((s, o.id))
            keep.add_observation(s, p, o)
            if (s, p) in want:
                m.obs[s, p] = maps.obs_key(o)
    r.add_correspondences_from_tracks_manager(keep)
    m.points = {p: (xyz, (255, 0, 0)) for p, (xyz, _) in m.points.items()}
    maps.compare(r, m)
    t.nontrivial(want and len(want) < len(obs))


@CHECK.sub(
    "copies",
    st.fixed_dictionaries({"k": st.integers(0, 500), "pose": maps.six, "scale": grid(0.5, 3), "meta": maps.meta_full, "old": maps.meta_full, "how": st.sampled_from(["pickle", "copy", "deepcopy"])}),
    quick=400, rule="metadata with several values",
)
def copies(c, t):
    """Objects survive being pickled, as parallel processing does."""
    dup = {"pickle": lambda x: pickle.loads(pickle.dumps(x)), "copy": copy.copy, "deepcopy": copy.deepcopy}[c["how"]]
    cam = maps.make_camera("cam é", c["k"])
    if c["how"] != "copy":
        check(maps.camera_key(dup(cam)) == maps.camera_key(cam), "camera", maps.camera_key(dup(cam)), maps.camera_key(cam))
        p = maps.make_pose(c["pose"])
        maps.same_pose(dup(p), maps.pose_t(c["pose"]), "copied")
        rc = dup(pymap.RigCamera(p, "left"))
        check(rc.id == "left")
        maps.same_pose(rc.pose, maps.pose_t(c["pose"]), "copied rig camera")
    s = pymap.ShotMeasurements()
    maps.set_meta(s, c["meta"])
    want = maps.get_meta(s)
    check(set(want) == {k for k, v in c["meta"].items()}, "metadata", want, c["meta"])
    if c["how"] != "deepcopy" or hasattr(s, "__deepcopy__") or hasattr(s, "__getstate__"):
        d = dup(s)
        check(maps.get_meta(d) == want, "copied metadata", maps.get_meta(d), want)
        maps.set_meta(d, {"orientation": 7, "capture_time": -5.0})
        check(maps.get_meta(s) == want, "the copy is not independent")
    o = pymap.ShotMeasurements()
    maps.set_meta(o, c["old"])
    o.set(s)
    check(maps.get_meta(o) == want, "metadata set over others", maps.get_meta(o), want)
    for k in want:
        if k != "attributes":
            getattr(s, k).reset()
            check(not getattr(s, k).has_value and (k in maps.get_meta(o)), "reset of one measurement")
    t.nontrivial(len(want) > 2)
    t.label(c["how"])
