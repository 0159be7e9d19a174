"""C18: the reconstruction commands recover the scene that the tracks come from."""

import json
import math
import os

import numpy as np
import scenes
from gen import rng, rot_angle, rotvec_of, seeds, st
from harness import Check, Skip, check
from opensfm import pygeometry, pymap, reconstruction as orec, types
from opensfm.actions import bundle as bundle_action, extend_reconstruction, reconstruct, reconstruct_from_prior

CHECK = Check("C18")
CHECK.assumptions = ["single steps (C17), bundle adjustment (C12, C13), alignment (C14), files (C11)"]
layouts = st.sampled_from(["street", "aerial", "orbit"])
kinds = st.sampled_from(["perspective", "brown", "fisheye", "spherical"])
Incremental = orec.ReconstructionAlgorithm.INCREMENTAL
Triangulation = orec.ReconstructionAlgorithm.TRIANGULATION


def consistent(s, m, recs, limit, loaded=False):
    """What holds of every result: points are tracks with their observations, which agree with the poses.

    A loaded result does not tell which observations were removed: two have to agree.
    """
    known = {n: m.get_shot_observations(n) for n in m.get_shot_ids()}
    where = {}
    for j, r in enumerate(recs):
        for n in r.shots:
            check(n not in where, n, "is in two reconstructions")
            check(n in s.names, "unknown image", n)
            where[n] = j
        count = {}
        for n, sh in r.shots.items():
            k = s.names.index(n)
            md = sh.metadata
            check(sh.camera.id == s.camera_of[k], "camera of", n, sh.camera.id)
            check(md.capture_time.has_value and abs(md.capture_time.value - (1000 + k)) < 1e-6, "capture time of", n)
            if n not in known:
                continue
            for p, ob in known[n].items():
                if p not in r.points:
                    continue
                have = sh.get_landmark_observation(r.points[p]) if n in {x.id for x in r.points[p].get_observations()} else None
                if have is None:
                    continue
                check(np.array_equal(have.point, ob.point) and have.id == ob.id, "observation of", p, "in", n, have.point, "not", ob.point)
                X = r.points[p].coordinates
                if s.cameras[s.camera_of[k]].projection_type == "spherical":
                    v = sh.pose.transform(X)
                    e = np.linalg.norm(v / np.linalg.norm(v) - sh.camera.pixel_bearing(ob.point))
                else:
                    e = np.linalg.norm(sh.project(X) - ob.point)
                check(e < limit or loaded, "point", p, "projects", e, "from its observation in", n)
                count[p] = count.get(p, 0) + (e < limit)
        for p in r.points:
            check(count.get(p, 0) >= 2, "point", p, "has", count.get(p, 0), "observations")
            check(any(np.array_equal(r.points[p].color, o.color) for o in m.get_track_observations(p).values()), "color of", p, r.points[p].color)
    return where


def near(s, r, absolute, tol, rot, focal):
    """Poses, points and focal length of a reconstruction are those of the scene; up to a similarity if not absolute."""
    names = sorted(r.shots)
    ks = [s.names.index(n) for n in names]
    O = np.array([r.shots[n].pose.get_origin() for n in names])
    T = s.o[ks]
    # an outlier seen by two images only cannot be told from a point elsewhere
    clean = [p for p in r.points if not any(s.observations[o.id, int(p)][1] for o in r.points[p].get_observations())]
    P = np.array([r.points[p].coordinates for p in clean])
    W = np.array([s.X[int(p)] for p in clean])
    if absolute:
        sc, A, b = 1.0, np.eye(3), np.zeros(3)
    else:
        sc, A, b = scenes.similarity(np.r_[O, P], np.r_[T, W])
    off = np.linalg.norm(sc * O @ A.T + b - T, axis=1)
    check(off.max() < tol, "cameras are off by", off.max(), names[int(off.argmax())])
    spread = np.linalg.svd(T - T.mean(0))[1][1] / math.sqrt(len(T))
    if absolute and spread < 1.5:  # the roll about a line of positions is up to their noise
        rot = 3.2
    turn = [rot_angle(r.shots[n].pose.get_rotation_matrix() @ A.T @ s.R[k].T) for n, k in zip(names, ks)]
    check(max(turn) < rot, "cameras are turned by", max(turn))
    D = np.linalg.norm(sc * P @ A.T + b - W, axis=1)
    depth = np.median(np.linalg.norm(W[:, None] - T[None], axis=2))
    check(np.median(D) < tol + rot * depth, "points are off by", np.median(D))
    for c in r.cameras.values():
        if c.projection_type != "spherical":
            check(abs(c.focal / s.cameras[c.id].focal - 1) < focal, "focal", c.focal, "not", s.cameras[c.id].focal)
    return off.max(), max(turn), np.median(D)


def run(s, root, cfg, action, gps=True, extra=None, save=None, images=(), ):
    """A dataset is written, the action run in a fresh DataSet, and the result loaded."""
    data = scenes.write(s, root, cfg, gps=gps, extra=extra)
    m = scenes.tracks_of(s)
    data.save_tracks_manager(m)
    m = data.load_tracks_manager()  # as rounded in the file
    if save:
        save(data, m)
    action(type(data)(root))
    recs = data.load_reconstruction()
    for r in recs:
        r.add_correspondences_from_tracks_manager(m)
    rep = json.load(open(os.path.join(root, "reports", "reconstruction.json")))
    return data, m, recs, rep


def in_memory(s, root, cfg, gps=True, extra=None, algorithm=orec.incremental_reconstruction):
    data = scenes.write(s, root, cfg, gps=gps, extra=extra)
    m = scenes.tracks_of(s)
    rep, recs = algorithm(data, m)
    return data, m, recs, rep


@CHECK.sub("incremental", st.fixed_dictionaries({
    "seed": seeds, "layout": layouts, "kind": kinds, "n": st.sampled_from([5, 6, 8]), "points": st.sampled_from([200, 300]), "outliers": st.sampled_from([0, 0.03]), "prior": st.sampled_from([0, 0.02]),
    "gps": st.booleans(), "parts": st.sampled_from([1, 1, 2]), "processes": st.sampled_from([1, 1, 2]), "type": st.sampled_from(["FULL", "ROBUST"]), "filter": st.booleans(), "interval": st.sampled_from([1, 999999]),
    "local": st.sampled_from([0, 3]), "retriangulation": st.booleans(), "odd": st.sampled_from(["", "", "uneven", "junction"])}), quick=80, rule="all images are reconstructed")
def incremental(c, t):
    """Every connected group of images gives one reconstruction, of all its images, near the true scene."""
    g = rng(c["seed"])
    s = scenes.make(g, c["layout"], c["n"], c["points"], c["kind"], noise=1e-4, outliers=c["outliers"], prior=c["prior"], gps_noise=0.05, parts=c["parts"])
    gone = set()  # images without tracks or in two places
    if c["odd"] == "uneven":
        q = int(g.integers(c["parts"]))
        gone = set([n for n, x in zip(s.names, s.part) if x == q][-2:])
        s.observations = {k: v for k, v in s.observations.items() if k[0] not in gone}
    elif c["odd"] == "junction" and c["parts"] == 2 and not c["gps"]:
        a, b = s.names[c["n"] // 2], s.names[c["n"] + c["n"] // 2]
        gone = {a, b}
        s.observations = {(a if k[0] == b else k[0], k[1]): v for k, v in s.observations.items()}
    cfg = {"processes": c["processes"], "triangulation_type": c["type"], "filter_final_point_cloud": c["filter"], "bundle_interval": c["interval"], "local_bundle_radius": c["local"], "retriangulation": c["retriangulation"]}
    data, m, recs, rep = in_memory(s, t.tmpdir() + "/d", cfg, gps=c["gps"])
    where = consistent(s, m, recs, 0.0061)
    most = [max(v for (a, b), v in m.get_all_pairs_connectivity().items() if s.part[s.names.index(a)] == s.part[s.names.index(b)] == q and not {a, b} & gone) for q in range(c["parts"])]
    if min(most) < 80:
        raise Skip("too few common points to start from")
    check(sorted(rep["not_reconstructed_images"]) == sorted(set(m.get_shot_ids()) - set(where)), "not reconstructed", rep["not_reconstructed_images"], "though done are", sorted(where))
    check([len(r.shots) for r in recs] == sorted([len(r.shots) for r in recs], reverse=True), "order of reconstructions")
    want = sorted(sorted(n for n, x in zip(s.names, s.part) if x == q and n not in gone) for q in range(c["parts"]))
    check(sorted(sorted(set(r.shots) - gone) for r in recs) == want, "reconstructions of", [sorted(r.shots) for r in recs])
    if c["odd"] == "junction" and gone:
        check(a in where, "the image in two places is in neither")
        for r in recs:
            for n in gone & set(r.shots):
                r.remove_shot(n)
            for p in [p for p, x in r.points.items() if len(x.get_observations()) < 2]:
                r.remove_point(p)
    for r in recs:
        check(len({s.part[s.names.index(n)] for n in r.shots}) == 1, "unrelated images in one reconstruction")
        size = np.ptp(s.o[[s.names.index(n) for n in r.shots]], axis=0).max()
        if c["gps"]:
            x = r.reference
            check((x.lat, x.lon, x.alt) == tuple(scenes.REFERENCE[k] for k in ("latitude", "longitude", "altitude")), "reference", x.lat, x.lon, x.alt)
        v = near(s, r, False, 0.1 * size, 0.05, 0.05)
        if os.environ.get("STAT"):
            print("STAT", c["layout"], c["kind"], size, v, file=open("/tmp/stat", "a"))
        if c["gps"]:
            near(s, r, True, 0.2 + 0.1 * size, 0.15, 0.05)
        pts = {int(p) for p in r.points}
        good = {i for i in range(len(s.X)) if sum(1 for n in r.shots if (n, i) in s.observations and not s.observations[n, i][1]) >= 3}
        if not c["filter"] and not c["outliers"]:
            check(len(pts & good) > 0.8 * len(good), "only", len(pts & good), "points of", len(good))
    t.nontrivial()


def angles(R):
    """Omega, phi, kappa (degrees) of a world to camera rotation."""
    M = (np.diag([1, -1, -1]) @ R).T
    return {"omega": math.degrees(math.atan2(-M[1, 2], M[2, 2])), "phi": math.degrees(math.asin(np.clip(M[0, 2], -1, 1))), "kappa": math.degrees(math.atan2(-M[0, 1], M[0, 0]))}


def partial(s, names, points, noise=0.0, g=None):
    """A reconstruction with some of the images and points of a scene, without observations."""
    r = types.Reconstruction()
    r.reference = scenes.converter()
    for c in s.prior.values():
        q = scenes.make_camera(c.projection_type, 1.0, np.random.default_rng(0), c.id, c.width, c.height)
        q.set_parameters_values(s.cameras[c.id].get_parameters_values())
        r.add_camera(q)
    for k, n in enumerate(s.names):
        if n in names:
            o = s.o[k] + (g.normal(0, noise, 3) if noise else 0)
            sh = r.create_shot(n, s.camera_of[k], pygeometry.Pose(s.R[k], -s.R[k] @ o))
            sh.metadata.capture_time.value = 1000.0 + k
            sh.metadata.gps_position.value = s.gps[k]
            sh.metadata.gps_accuracy.value = 5.0
            sh.metadata.orientation.value = 1
    for i in points:
        r.create_point(str(i), s.X[i] + (g.normal(0, noise, 3) if noise else 0))
        r.points[str(i)].color = [i % 256, (i * 7) % 256, (i * 13) % 256]
    return r


common = {"seed": seeds, "layout": layouts, "kind": kinds, "n": st.sampled_from([5, 7]), "outliers": st.sampled_from([0, 0.03]), "prior": st.sampled_from([0, 0.02])}


@CHECK.sub("commands", st.fixed_dictionaries(dict(common, version=st.booleans(), parts=st.sampled_from([1, 2]), lonely=st.booleans(), triangulate=st.booleans())), quick=40, rule="all images are reconstructed")
def commands(c, t):
    """The command to reconstruct gives the scene, starting from the images' metadata if so asked, and reports what it left out."""
    g = rng(c["seed"])
    parts = 1 if c["triangulate"] else c["parts"]
    s = scenes.make(g, c["layout"], c["n"], 250, c["kind"], noise=1e-4, outliers=c["outliers"], prior=c["prior"], gps_noise=0.05, parts=parts)
    lonely = None
    if c["lonely"] and not c["triangulate"]:  # an image that sees a few points only
        lonely = s.names[0]
        for i, k in enumerate([k for k in s.observations if k[0] == lonely]):
            if i >= 4:
                del s.observations[k]
    extra = {n: {"opk": angles(s.R[k])} for k, n in enumerate(s.names)}
    data, m, recs, rep = run(s, t.tmpdir() + "/d", {}, lambda d: reconstruct.run_dataset(d, Triangulation if c["triangulate"] else Incremental), extra=extra)
    most = [max([v for (a, b), v in m.get_all_pairs_connectivity().items() if s.part[s.names.index(a)] == q and lonely not in (a, b)], default=0) for q in range(parts)]
    if min(most) < 80:
        raise Skip("too few common points to start from")
    where = consistent(s, m, recs, 0.0062, True)
    done = {n for n in s.names if n != lonely}
    check(set(where) == done, "reconstructed", sorted(where), "not", sorted(done))
    check(len(recs) == parts, len(recs), "reconstructions of", parts, "parts")
    if not c["triangulate"]:
        check(sorted(rep["not_reconstructed_images"]) == sorted(set(m.get_shot_ids()) - done), "not reconstructed", rep["not_reconstructed_images"])
        check(len(rep["reconstructions"]) >= parts, "report of", len(rep["reconstructions"]))
    for r in recs:
        size = np.ptp(s.o[[s.names.index(n) for n in r.shots]], axis=0).max()
        near(s, r, False, 0.1 * size, 0.06, 0.05)
        near(s, r, True, 0.2 + 0.1 * size, 0.15, 0.05)
    t.nontrivial()
    t.label("triangulation" if c["triangulate"] else "incremental")


@CHECK.sub("extend", st.fixed_dictionaries(dict(common, known=st.sampled_from([2, 3, 4]), blind=st.sampled_from(["", "blind", "nonsense"]), other=st.booleans())), quick=40, rule="images are added")
def extend(c, t):
    """Extending a reconstruction adds the remaining images that see its points, and keeps those it has."""
    g = rng(c["seed"])
    s = scenes.make(g, c["layout"], c["n"], 250, c["kind"], noise=1e-4, outliers=c["outliers"], prior=c["prior"], gps_noise=0.05)
    have = s.names[: c["known"]]
    blind = s.names[-1] if c["blind"] else None  # has no tracks at all, or all wrong
    for k in [k for k in s.observations if k[0] == blind]:
        if c["blind"] == "nonsense":
            s.observations[k] = (g.uniform(-0.45, 0.45, 2) * [1, 0.5], True)
        else:
            del s.observations[k]
    if c["blind"] == "nonsense":
        for n in s.names[:2]:  # and it sees the most
            for i in [i for m, i in s.observations if m == n]:
                s.observations[blind, i] = (g.uniform(-0.45, 0.45, 2) * [1, 0.5], True)
    seen = {}
    for n, i in s.observations:
        if n in have and not s.observations[n, i][1]:
            seen.setdefault(i, []).append(n)
    points = [i for i in sorted(seen) if len(seen[i]) >= 2]
    if len(points) < 40:
        raise Skip("too few points")
    r0 = partial(s, have, points)
    root = t.tmpdir() + "/d"
    inp, out = ("base.json", "out.json") if c["other"] else (None, None)

    def act(d):
        extend_reconstruction.run_dataset(d, inp, out)
        if c["other"]:
            os.rename(os.path.join(root, "out.json"), os.path.join(root, "reconstruction.json"))

    data, m, recs, rep = run(s, root, {}, act, save=lambda d, m: d.save_reconstruction([r0], inp))
    check(len(recs) == 1, "reconstructions", len(recs))
    r = recs[0]
    consistent(s, m, recs, 0.0062, True)
    check(set(have) <= set(r.shots), "lost", set(have) - set(r.shots))
    check(set(r.shots) == set(s.names) - {blind}, "has", sorted(r.shots))
    check(sorted(rep["not_reconstructed_images"]) == ([blind] if blind else []), "not reconstructed", rep["not_reconstructed_images"])
    size = np.ptp(s.o, axis=0).max()
    near(s, r, False, 0.1 * size, 0.06, 0.05)
    near(s, r, True, 0.2 + 0.1 * size, 0.15, 0.05)
    t.nontrivial()


@CHECK.sub("prior", st.fixed_dictionaries(dict(common, known=st.sampled_from([2, 4]), points=st.booleans())), quick=60, rule="points are triangulated")
def prior(c, t):
    """A reconstruction from prior poses keeps them and the cameras exactly, and has the points they see."""
    g = rng(c["seed"])
    s = scenes.make(g, c["layout"], c["n"], 200, c["kind"], noise=1e-5, outliers=c["outliers"])
    have = [str(x) for x in g.permutation(s.names)[: c["known"]]]
    r0 = partial(s, have, range(5) if c["points"] else [])
    data, m, recs, rep = run(s, t.tmpdir() + "/d", {}, lambda d: reconstruct_from_prior.run_dataset(d, "prior.json", "reconstruction.json"), save=lambda d, m: d.save_reconstruction([r0], "prior.json"))
    r, = recs
    check(set(r.shots) == set(have), "images", sorted(r.shots))
    check(sorted(rep["not_reconstructed_images"]) == sorted(set(m.get_shot_ids()) - set(have)), "not reconstructed", rep["not_reconstructed_images"])
    for k, n in enumerate(s.names):
        if n in have:
            P = r.shots[n].pose
            check(rot_angle(P.get_rotation_matrix() @ s.R[k].T) < 1e-6 and np.allclose(P.get_origin(), s.o[k], atol=1e-6), "pose of", n, "changed")
    a, b = r.cameras["cam"], s.cameras["cam"]
    check(a.projection_type == b.projection_type and np.allclose(a.get_parameters_values(), b.get_parameters_values(), atol=1e-12), "camera changed")
    check((r.reference.lat, r.reference.lon, r.reference.alt) == tuple(scenes.REFERENCE.values()), "reference")
    cfg = data.config
    for i in range(len(s.X)):
        ims = [n for n in have if (n, i) in s.observations]
        p = str(i)
        if len(ims) < 2:
            check(p not in r.points, "point", p, "of one image")
            continue
        if any(s.observations[n, i][1] for n in ims):
            continue
        ks = [s.names.index(n) for n in ims]
        rays = [(s.X[i] - s.o[k]) / np.linalg.norm(s.X[i] - s.o[k]) for k in ks]
        top = max(math.degrees(math.atan2(np.linalg.norm(np.cross(x, y)), x @ y)) for x in rays for y in rays)
        top2 = min(top, 180 - top)
        if top2 > 3:
            check(p in r.points, "point", p, "seen under", top, "is missing")
        if p in r.points:
            check(top > cfg["triangulation_min_ray_angle"] - 0.01, "point", p, "seen under", top)
            d = max(np.linalg.norm(s.X[i] - s.o[k]) for k in ks)
            e = np.linalg.norm(r.points[p].coordinates - s.X[i])
            check(e < 1e-3 * d / math.sin(math.radians(top)), "point", p, "is off by", e, "seen under", top)
            check(len(r.points[p].get_observations()) == len(ims), "point", p, "observations")
            cols = [m.get_observation(n, p).color.tolist() for n in m.get_track_observations(p)]
            check(r.points[p].color.tolist() in cols, "color of", p, r.points[p].color)
            t.nontrivial()


@CHECK.sub("adjust", st.fixed_dictionaries(dict(common, other=st.booleans(), empty=st.booleans())), quick=40, rule="the scene is adjusted")
def adjust(c, t):
    """The command to adjust brings disturbed poses and points back to the scene, and loses nothing."""
    g = rng(c["seed"])
    s = scenes.make(g, c["layout"], c["n"], 200, c["kind"], noise=1e-4, prior=c["prior"], gps_noise=0.05)
    seen = {}
    for n, i in s.observations:
        seen.setdefault(i, []).append(n)
    r0 = partial(s, s.names, sorted(seen), 0.03, g)
    rs = [r0, partial(s, [], [])] if c["empty"] else [r0]
    inp, out = ("base.json", "out.json") if c["other"] else (None, None)
    root = t.tmpdir() + "/d"

    def act(d):
        bundle_action.run_dataset(d, inp, out)
        if c["other"]:
            os.rename(os.path.join(root, "out.json"), os.path.join(root, "reconstruction.json"))
        d.save_report("{}", "reconstruction.json")

    data, m, recs, _ = run(s, root, {}, act, save=lambda d, m: d.save_reconstruction(rs, inp))
    r = recs[0]
    check(len(recs) == len(rs), "reconstructions", len(recs))
    check(set(r.shots) == set(s.names) and {int(p) for p in r.points} == set(seen), "images or points are lost")
    consistent(s, m, recs[:1], 0.0062, True)
    size = np.ptp(s.o, axis=0).max()
    near(s, r, False, 0.1 * size, 0.06, 0.05)
    near(s, r, True, 0.2 + 0.1 * size, 0.15, 0.05)
    t.nontrivial()


@CHECK.sub("rigs", st.fixed_dictionaries(dict(common, n=st.sampled_from([3, 5]), rig=st.sampled_from([2, 2, 3]), gps=st.booleans())), quick=16, rule="a rig is reconstructed")
def rigs(c, t):
    """Cameras of a rig are reconstructed together, at the relative poses of the rig."""
    g = rng(c["seed"])
    s = scenes.make(g, c["layout"], c["n"], 120, c["kind"], noise=1e-4, outliers=c["outliers"], rig=c["rig"], gps_noise=0.05)
    data, m, recs, rep = in_memory(s, t.tmpdir() + "/d", {}, gps=c["gps"])
    where = consistent(s, m, recs, 0.0061)
    for r in recs:
        for n in r.shots:
            k = s.names.index(n)
            mates = {q for j, q in enumerate(s.names) if s.instance[j] == s.instance[k]}
            check(mates <= set(r.shots), n, "is without its rig")
            sh = r.shots[n]
            check(sh.rig_camera.id == f"rc{k % s.rig}" and sh.rig_instance.id == s.instance[k] and set(sh.rig_instance.keys()) == mates, "rig of", n, sh.rig_instance.id, sh.rig_instance.keys())
            own = r.rig_cameras[sh.rig_camera_id].pose.compose(sh.rig_instance.pose)
            check(np.allclose(own.get_rotation_matrix(), sh.pose.get_rotation_matrix(), atol=1e-6) and np.allclose(own.get_origin(), sh.pose.get_origin(), atol=1e-6), "pose of", n, "is not that of its rig")
        for j, (A, o) in enumerate(s.rig_poses):
            P = r.rig_cameras[f"rc{j}"].pose
            check(rot_angle(P.get_rotation_matrix() @ A.T) < 0.1 and np.linalg.norm(P.get_origin() - o) < 0.1, "camera", j, "of the rig is off by", rot_angle(P.get_rotation_matrix() @ A.T), np.linalg.norm(P.get_origin() - o))
    check(sorted(rep["not_reconstructed_images"]) == sorted(set(m.get_shot_ids()) - set(where)), "not reconstructed", rep["not_reconstructed_images"])
    t.nontrivial(bool(recs))
