"""C24: the statistics and the report describe the reconstruction they are made from."""

import json
import math
import os

import cams
import cv2
import numpy as np
import scenes
from c21_exports import PLAIN, World
from gen import rng, rodrigues, seeds, st
from harness import Check, Skip, check
from opensfm import dataset, io, pygeometry, pymap, report, stats, types
from opensfm.actions import compute_statistics

CHECK = Check("C24")
CHECK.assumptions = ["camera models (C02), poses (C03), files (C11), geodesy (C01), maps and tracks (C09, C10)"]
CUT = 4.0  # pixels: observations further away do not count in the reprojection errors


def close(a, b, *info, tol=1e-9):
    check(np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=tol, atol=tol), *info, a, b)


def summary(errors):
    e = np.array(errors).reshape(-1, 3)
    out = {"average_error": np.mean(np.sqrt((e ** 2).sum(1)))}
    for name, v in (("mean", e.mean(0)), ("std", np.sqrt(((e - e.mean(0)) ** 2).mean(0))), ("error", np.sqrt((e ** 2).mean(0)))):
        out[name] = dict(zip("xyz", v))
    return out


def same_summary(got, errors, *info, tol=1e-6):
    if not errors:
        check(got == {}, *info, "errors of nothing", got)
        return
    want = summary(errors)
    check(set(got) == set(want), *info, sorted(got))
    close(got["average_error"], want["average_error"], *info, "average error", tol=tol)
    for k in ("mean", "std", "error"):
        for x in "xyz":
            close(got[k][x], want[k][x], *info, k, x, tol=tol)


def bounded(total):
    """Whole-number summaries: the mean and the median are rounded towards zero."""
    v = sorted(total)
    if not v:
        return {"min": -1, "max": -1, "mean": -1, "median": -1}
    n = len(v)
    return {"min": v[0], "max": v[-1], "mean": sum(v) // n, "median": (v[(n - 1) // 2] + v[n // 2]) // 2}


def prepare(case, t):
    """A world with noisy observations, GPS positions, biases, points on the ground and reports."""
    g = rng(case["seed"])
    c = {"images": case["images"], "points": case["points"], "reconstructions": case["recs"], "loose": case["loose"], "spread": case["spread"], "ids": case.get("ids")}
    w = World(t.tmpdir() + "/data", g, c, case["cameras"], rig=case["rig"])
    w.shift = g.uniform(-1, 1, 3) * case["away"]
    m = pymap.TracksManager()
    kept = set()
    for (n, i), (p, f) in sorted(w.obs.items()):
        if g.random() < case["drop"] and (w.rec.get(n), i) in kept:
            continue
        kept.add((w.rec.get(n), i))
        size = max(w.cam[n].width, w.cam[n].height)
        q = p + g.normal(0, case["noise"], 2) / size
        m.add_observation(n, f"t{i}", pymap.Observation(q[0], q[1], float(g.uniform(0.001, 0.02)), *[int(v) for v in w.rgb[i]], f))
    w.tracks = m
    w.gps, w.bias = {}, {}
    for j, r in enumerate(w.recs):
        if case["away"]:  # everything elsewhere
            for s in r.rig_instances.values():
                R = s.pose.get_rotation_matrix()
                s.pose = pygeometry.Pose(R, -R @ (s.pose.get_origin() + w.shift))
            for p in r.points.values():
                p.coordinates = p.coordinates + w.shift
        for cid in r.cameras:
            if case["biases"] and g.random() < 0.7:
                w.bias[j, cid] = (rodrigues(g.normal(0, 0.1, 3)), g.normal(0, 3, 3), g.uniform(0.8, 1.2))
                R, tr, s = w.bias[j, cid]
                r.set_bias(cid, pygeometry.Similarity(cv2.Rodrigues(R)[0][:, 0], tr, s))
        for n, s in r.shots.items():
            if g.random() < case.get("times", 1.0):
                s.metadata.capture_time.value = float(g.uniform(0, 1e6))
            if g.random() < case["gps"]:
                w.gps[n] = w.o[n] + w.shift + g.normal(0, 2, 3)
                s.metadata.gps_position.value = w.gps[n]
                s.metadata.gps_accuracy.value = 1.0
    w.data.save_tracks_manager(m)
    w.data.save_reconstruction(w.recs)
    return w


def spread_of(rays):
    """The largest angle between rays, in degrees."""
    u = [r / np.linalg.norm(r) for r in rays]
    return max([math.degrees(math.atan2(np.linalg.norm(np.cross(a, b)), a @ b)) for a in u for b in u], default=0.0)


def ground(w, g, n):
    """Points on the ground: their measured and their true places, and the images that see them."""
    conv, out, L = scenes.converter(), {}, []
    w.narrow = False
    for k in range(n):
        X = g.uniform(-1.5, 1.5, 3) * w.spread
        seen = [x for x in w.names if g.random() < 0.8]
        lla = conv.to_lla(*(X + w.shift + g.normal(0, 1, 3)))
        kind = ["measured", "measured", "unmeasured"][int(g.integers(3))]
        p = {"id": f"g{k}", "observations": []}
        if kind == "measured":
            p["position"] = dict(zip(("latitude", "longitude", "altitude"), lla))
        for x in seen:
            uv = w.cam[x].project(w.R[x] @ (X - w.o[x]))
            p["observations"].append({"shot_id": x, "projection": [float(v) for v in uv]})
        L.append(p)
        wide = [spread_of([X - w.o[x] for x in seen if w.rec.get(x) == j]) for j in range(len(w.recs))]
        if any(0.05 < v < 0.2 for v in wide):
            raise Skip("rays nearly too close")
        if kind == "measured" and max(wide) > 0.1:  # degrees between rays that are far enough apart
            w.narrow |= min(v for v in wide if v > 0.1) < 2
            out[p["id"]] = X + w.shift - conv.to_topocentric(*lla)
    with open(w.root + "/ground_control_points.json", "w") as f:
        json.dump({"points": L}, f)
    return out


CASE = st.fixed_dictionaries({
    "seed": seeds,
    "cameras": st.lists(cams.cameras(PLAIN), min_size=1, max_size=3),
    "images": st.integers(2, 8),
    "recs": st.sampled_from([1, 1, 2]),
    "points": st.integers(10, 60),
    "loose": st.booleans(),
    "rig": st.sampled_from([False, False, True]),
    "spread": st.sampled_from([1.0, 1.0, 20.0]),
    "noise": st.sampled_from([0.0, 0.3, 1.0, 3.0]),
    "drop": st.sampled_from([0.0, 0.2, 0.5]),
    "away": st.sampled_from([0.0, 50.0, 1000.0]),
    "biases": st.booleans(),
    "gps": st.sampled_from([0.0, 0.5, 1.0]),
    "ground": st.integers(0, 5),
    "loaded": st.booleans(),
    "reports": st.integers(0, 15),
})


@CHECK.sub("numbers", CASE, quick=200, rule="noisy observations of at least three images, some beyond the cutoff or of tracks not reconstructed")
def numbers(case, t):
    """Every number of the statistics, computed again from the truth."""
    if case["rig"]:
        case = dict(case, recs=1, loose=False)
    if case["images"] < 2 * case["recs"]:
        raise Skip("an image alone")
    w = prepare(case, t)
    w.spread = case["spread"]
    g = rng(case["seed"] + 1)
    gcp = ground(w, g, case["ground"])
    steps, want = [("Feature Extraction", "features.json"), ("Features Matching", "matches.json"), ("Tracks Merging", "tracks.json"), ("Reconstruction", "reconstruction.json")], {}
    for k, (name, f) in enumerate(steps):
        want[name] = -1
        if case["reports"] >> k & 1:
            v = float(g.uniform(0, 100))
            w.data.save_report(json.dumps({"wall_times": {"a": v, "b": 2.5}} if f in ("features.json", "tracks.json") else {"wall_time": v + 2.5}), f)
            want[name] = v + 2.5
    recs, tm = (w.data.load_reconstruction(), w.data.load_tracks_manager()) if case["loaded"] else (w.recs, w.tracks)
    if not case["loaded"]:
        for r in recs:
            for k in r.points:
                for n, o in tm.get_track_observations(k).items():
                    if n in r.shots:
                        r.add_observation(n, k, o)
    S = stats.compute_all_statistics(w.data, tm, recs)
    check(set(S) == {"processing_statistics", "features_statistics", "reconstruction_statistics", "camera_errors", "rig_errors", "gps_errors", "gcp_errors"}, "parts", sorted(S))
    json.dumps(S)

    # processing
    P = S["processing_statistics"]
    check({k: P["steps_times"][k] for k in want} == want or all(abs(P["steps_times"][k] - want[k]) < 1e-9 for k in want), "times of the steps", P["steps_times"], want)
    close(P["steps_times"]["Total Time"], sum(v for v in want.values() if v >= 0), "total time")
    O = np.array([w.o[n] + w.shift for n in w.rec])
    close(P["area"], np.prod((O.max(0) - O.min(0))[:2]), "area", tol=1e-6)

    # counts
    q = S["reconstruction_statistics"]
    nt = tm.num_tracks()
    check(q["components"] == len(recs) and q["initial_points_count"] == nt and q["initial_shots_count"] == len(w.names), "counts", q["components"], q["initial_points_count"], q["initial_shots_count"])
    check(q["reconstructed_shots_count"] == len(w.rec) and q["reconstructed_points_count"] == len(w.points), "reconstructed", q["reconstructed_shots_count"], q["reconstructed_points_count"])
    check(q["has_gps"] == (len(w.gps) > 2) and q["has_gcp"] == (case["ground"] > 0), "kinds of measurements", q["has_gps"], q["has_gcp"])

    # tracks: the observations of a point, within its reconstruction when they are in the map
    observations = {n: tm.get_shot_observations(n) for n in w.names if n in tm.get_shot_ids()}
    lengths = []
    for j, i in w.points:
        everywhere = [n for n in w.names if f"t{i}" in observations.get(n, {})]
        here = [n for n in everywhere if w.rec.get(n) == j]
        lengths.append(len(everywhere) if case["loaded"] or not here else len(here))
    check(q["observations_count"] == sum(lengths), "observations", q["observations_count"], sum(lengths))
    hist = {int(k): v for k, v in q["histogram_track_length"].items()}
    check(hist == {k: lengths.count(k) for k in set(lengths)}, "histogram of the lengths", hist)
    close(q["average_track_length"], sum(lengths) / len(lengths) if lengths else -1, "length of the tracks")
    over = [k for k in lengths if k > 2]
    close(q["average_track_length_over_two"], sum(over) / len(over) if over else -1, "length of the tracks over two")

    # reprojection errors
    E, cut, per = [], 0, {}
    for j, i in w.points:
        for n in w.names:
            if w.rec.get(n) != j or f"t{i}" not in observations.get(n, {}):
                continue
            per[n] = per.get(n, 0) + 1
            o, c = observations[n][f"t{i}"], w.cam[n]
            X = w.R[n] @ (w.X[i] - w.o[n])
            e = np.asarray(o.point) - c.project(X)
            px = np.linalg.norm(e) * max(c.width, c.height)
            if abs(px - CUT) < 1e-3:
                raise Skip("at the cutoff")
            b = c.pixel_bearing(o.point)
            if px > CUT:
                cut += 1
                continue
            E.append((np.linalg.norm(e) / o.scale, px, math.atan2(np.linalg.norm(np.cross(X, b)), X @ b)))
    for k, name in enumerate(["normalized", "pixels", "angular"]):
        v = [e[k] for e in E]
        close(q[f"reprojection_error_{name}"], np.mean(v) if v else -1.0, "reprojection error", name, tol=1e-6)
        h, edges = q[f"reprojection_histogram_{name}"]
        if not v:
            check(not h and not edges, "histogram of nothing", name)
            continue
        check(sum(h) == len(v) and len(edges) == len(h) + 1, "histogram of the errors", name, sum(h), len(v))
        if case["noise"]:
            close([edges[0], edges[-1]], [min(v), max(v)], "range of the errors", name, tol=1e-5)
            u = np.cumsum(h)
            for a, b in zip(edges[1:-1], u):
                n0 = sum(x < a - 1e-6 * abs(a) for x in v), sum(x < a + 1e-6 * abs(a) for x in v)
                check(n0[0] <= b <= n0[1], "histogram of the errors", name, a, b, n0)

    # features
    F = S["features_statistics"]
    check(F["detected_features"] == bounded([len(w.feats[n]) for n in w.rec]), "detected features", F["detected_features"])
    check(F["reconstructed_features"] == bounded(per.values()), "reconstructed features", F["reconstructed_features"])

    # measurements
    errors = []
    for n, p in w.gps.items():
        R, tr, s = w.bias.get((w.rec[n], w.cam[n].id), (np.eye(3), np.zeros(3), 1.0))
        errors.append(w.o[n] + w.shift - (s * R @ p + tr))
    same_summary(S["gps_errors"], errors, "gps")
    same_summary(S["gcp_errors"], list(gcp.values()), "ground control points", tol=(1e-2 if w.narrow else 1e-4) * w.spread)

    # cameras: the values of the largest reconstruction
    order = sorted(range(len(recs)), key=lambda j: -len(recs[j].shots))
    C = S["camera_errors"]
    check(set(C) == set(w.cameras), "cameras", sorted(C))
    names = {"perspective": ["k1", "k2", "focal"], "fisheye": ["k1", "k2", "focal"], "brown": ["k1", "k2", "k3", "p1", "p2", "focal", "aspect_ratio", "cx", "cy"], "fisheye_opencv": ["k1", "k2", "k3", "k4", "focal", "aspect_ratio", "cx", "cy"]}
    for cid, c in w.cameras.items():
        for part in ("initial_values", "optimized_values"):
            check(set(C[cid][part]) == set(names[c.projection_type]), "parameters", cid, sorted(C[cid][part]))
            close(C[cid][part]["focal"], c.focal, "focal", cid)
        if len({len(r.shots) for r in recs}) == len(recs):
            R, tr, s = w.bias.get((order[0], cid), (np.eye(3), np.zeros(3), 1.0))
            b = C[cid]["bias"]
            close(rodrigues(np.array(b["rotation"])), R, "bias", cid, tol=1e-6)
            close(list(b["translation"]) + [b["scale"]], list(tr) + [s], "bias", cid, tol=1e-6)
    t.nontrivial(len(w.rec) >= 3 and case["noise"] > 0 and len(E) > 10 and (cut > 0 or nt > len(w.points)))
    t.label("loaded" if case["loaded"] else "in memory")


@CHECK.sub("optimized", st.fixed_dictionaries({
    "seed": seeds,
    "kinds": st.lists(cams.cameras(PLAIN + ["spherical"]), min_size=1, max_size=3),
    "sizes": st.lists(st.integers(1, 6), min_size=1, max_size=3),
    "rig": st.integers(0, 3),
    "unused": st.integers(0, 2),
}), quick=150, rule="several reconstructions of different sizes")
def optimized(case, t):
    """The values of a camera before and after, from the largest reconstruction that has it."""
    g = rng(case["seed"])
    w_root = t.tmpdir() + "/data"
    os.makedirs(w_root + "/images")
    open(w_root + "/images/a.jpg", "wb").close()
    d = dataset.DataSet(w_root)
    ids = [f"cam{k}" for k in range(len(case["kinds"]))]

    def camera(k):
        c = cams.make(case["kinds"][k])
        c.id, c.width, c.height = ids[k], 640, 480
        if c.projection_type != "spherical":
            c.focal = float(g.uniform(0.5, 1.2))
        return c

    before = {i: camera(k) for k, i in enumerate(ids)}
    extra = {f"unused{k}": camera(0) for k in range(case["unused"])}
    for k, c in extra.items():
        c.id = k
    d.save_camera_models({**before, **extra})
    rigs = {f"rig{k}": (g.normal(0, 1, 3), g.normal(0, 1, 3)) for k in range(case["rig"])}
    d.save_rig_cameras({k: pymap.RigCamera(pygeometry.Pose(r, tr), k) for k, (r, tr) in rigs.items()})
    recs, has, place = [], [], []
    for j, n in enumerate(case["sizes"]):
        r = types.Reconstruction()
        mine = [k for k in range(len(ids)) if g.random() < 0.7] or [0]
        has.append({})
        place.append({})
        for k in mine:
            c = camera(k)
            r.add_camera(c)
            has[j][ids[k]] = dict(c.get_parameters_map())
        for k in rigs:
            if g.random() < 0.7:
                place[j][k] = (g.normal(0, 1, 3), g.normal(0, 1, 3))
                r.add_rig_camera(pymap.RigCamera(pygeometry.Pose(*place[j][k]), k))
        for s in range(n):
            r.create_shot(f"{j} {s}", ids[mine[s % len(mine)]], pygeometry.Pose(g.normal(0, 1, 3), g.normal(0, 1, 3)))
        recs.append(r)
    if len(set(case["sizes"])) < len(recs):
        raise Skip("reconstructions of the same size")
    order = sorted(range(len(recs)), key=lambda j: -case["sizes"][j])
    C = stats.cameras_statistics(d, recs)
    first = {}
    for j in order:
        for k in has[j]:
            first.setdefault(k, j)
    check(set(C) == set(first), "cameras", sorted(C), sorted(first))
    for k, j in first.items():
        for part, m in (("initial_values", dict(before[k].get_parameters_map())), ("optimized_values", has[j][k])):
            check(near(C[k][part], {str(a).split(".")[-1]: v for a, v in m.items()}), part, k, C[k][part], m)
    G = stats.rig_statistics(d, recs)
    first = {}
    for j in order:
        for k in place[j]:
            first.setdefault(k, j)
    check(set(G) == set(first), "rig cameras", sorted(G), sorted(first))
    for k, j in first.items():
        for part, (r, tr) in (("initial_values", rigs[k]), ("optimized_values", place[j][k])):
            close(rodrigues(np.array(G[k][part]["rotation"])), rodrigues(r), part, k, tol=1e-6)
            close(G[k][part]["translation"], tr, part, k, tol=1e-6)
    t.nontrivial(len(recs) > 1)


@CHECK.sub("decimate", st.fixed_dictionaries({
    "seed": seeds,
    "points": st.lists(st.integers(0, 40), min_size=1, max_size=3),
    "most": st.integers(0, 40),
}), quick=150, rule="some reconstructions have too many points and others do not")
def decimate(case, t):
    """At most so many points remain, as they were; a reconstruction with fewer is left alone."""
    g = rng(case["seed"])
    recs, X = [], []
    for n in case["points"]:
        r = types.Reconstruction()
        X.append({f"p{k}": g.normal(0, 1, 3) for k in range(n)})
        for k, x in X[-1].items():
            r.create_point(k, x)
        recs.append(r)
    stats.decimate_points(recs, case["most"])
    for r, n, x in zip(recs, case["points"], X):
        check(len(r.points) == min(n, case["most"]), "points left", len(r.points), n, case["most"])
        for k, p in r.points.items():
            check(np.array_equal(p.coordinates, x[k]), "place of a point", k)
    t.nontrivial(any(n > case["most"] for n in case["points"]))


_savefig = stats.plt.savefig


def small(f, **k):
    """Pictures of lower resolution, for speed."""
    _savefig(f, **dict(k, dpi=40))


def record(pdf):
    """What is written and shown in a document from now on."""
    out, cell, image = [], pdf.cell, pdf.image

    def write(*a, **k):
        out.append(("text", k.get("text", k.get("txt", a[2] if len(a) > 2 else ""))))
        return cell(*a, **k)

    def show(*a, **k):
        out.append(("image", os.path.basename(str(k.get("name", a[0] if a else "")))))
        return image(*a, **k)

    pdf.cell, pdf.image = write, show
    return out


@CHECK.sub("action", st.fixed_dictionaries({
    "seed": seeds,
    "cameras": st.lists(cams.cameras(PLAIN), min_size=1, max_size=3),
    "images": st.one_of(st.integers(3, 8), st.just(11)),
    "recs": st.sampled_from([1, 1, 2]),
    "away": st.sampled_from([0.0, 50.0]),
    "gps": st.sampled_from([0.0, 1.0]),
    "ground": st.integers(0, 3),
    "most": st.sampled_from([-1, 10]),
    "gone": st.booleans(),
    "ids": st.sampled_from([None, ["cam 10", "cam 1", "cam"], ["a/b", "a", "a/b c"]]),
    "times": st.sampled_from([1.0, 0.5, 0.0]),
    "drop": st.sampled_from([0.0, 0.5]),
    "points": st.sampled_from([10, 60]),
}), quick=10, thorough=80, rule="several cameras")
def action(case, t):
    """compute_statistics and export_report write what was computed, and a picture of every camera."""
    if case["images"] < 2 * case["recs"]:
        raise Skip("an image alone")
    g = rng(case["seed"])
    w = prepare(dict(case, loose=False, rig=False, spread=1.0, noise=0.5, biases=True), t)
    w.spread = 1.0
    ground(w, g, case["ground"])
    used = [{s.camera.id for s in r.shots.values()} for r in w.recs]
    if case["gone"]:  # reconstructions only have the cameras of their images
        text = io.reconstructions_to_json(w.recs)
        for r, u in zip(text, used):
            r["cameras"] = {k: v for k, v in r["cameras"].items() if k in u}
            r["biases"] = {k: v for k, v in r.get("biases", {}).items() if k in u}
        w.recs = io.reconstructions_from_json(text)
    w.data.save_reconstruction(w.recs)
    before = w.data.load_camera_models()  # not those that were optimized
    for q in before.values():
        if q.projection_type != "spherical":
            q.focal *= g.uniform(0.8, 1.2)
    w.data.save_camera_models(before)
    want = json.loads(json.dumps(stats.compute_all_statistics(w.data, w.data.load_tracks_manager(), w.data.load_reconstruction())))
    stats.plt.savefig = small
    try:
        compute_statistics.run_dataset(w.data, case["most"])
    finally:
        stats.plt.savefig = _savefig
        stats.plt.close("all")
    with open(w.root + "/stats/stats.json") as f:
        S = json.load(f)
    for k in want:
        check(json.dumps(S[k], sort_keys=True) == json.dumps(want[k], sort_keys=True) or near(S[k], want[k]), "stats.json", k)
    made = set(os.listdir(w.root + "/stats"))
    check({"matchgraph.png", "residual_histogram.png", "topview.png"} <= made, "pictures", sorted(made))
    seen = set().union(*used)
    for cid in seen:
        for kind in ("heatmap", "residuals"):
            check(f"{kind}_{cid}.png".replace("/", "_") in made, kind, "of camera", cid, sorted(made))
    for f in made - {"stats.json"}:
        check(cv2.imread(w.root + "/stats/" + f) is not None, "picture", f)
    with open(w.root + "/stats/stats.json") as f:
        check(json.load(f) == S, "stats.json changed")
    R = report.Report(w.data)
    L = record(R.pdf)
    R.generate_report()
    R.save_report("report.pdf")
    with open(w.root + "/stats/report.pdf", "rb") as f:
        check(f.read(5) == b"%PDF-", "report")
    owner, shown = None, set()
    for kind, x in L:
        if kind == "text" and x in w.cameras:
            owner = x
        if kind == "image" and x.startswith("residuals"):
            check(x == f"residuals_{owner}.png".replace("/", "_"), "picture of another camera", owner, x)
            shown.add(owner)
    check(shown == seen, "cameras of the report", shown, seen)
    text = {x for kind, x in L if kind == "text"}
    q = want["reconstruction_statistics"]
    for x in (
        f"{q['reconstructed_shots_count']} over {q['initial_shots_count']} shots ({100 * q['reconstructed_shots_count'] / q['initial_shots_count']:.1f}%)",
        f"{q['average_track_length']:.2f} images",
        f"{q['average_track_length_over_two']:.2f} images",
        f"{q['reprojection_error_normalized']:.2f} / {q['reprojection_error_pixels']:.2f} / {q['reprojection_error_angular']:.5f}",
    ):
        check(x in text, "not in the report", x)
    for kind in ("gps", "gcp"):
        if want[kind + "_errors"]:
            e = want[kind + "_errors"]
            for x in [e["average_error"]] + [e[k][c] for k in ("mean", "std", "error") for c in "xyz"]:
                check(f"{x:.3f}" in text, "not in the report", kind, x)
    said = [x for kind, x in L if kind == "text"]

    def row(*x):
        x = list(x)
        check(any(said[i : i + len(x)] == x for i in range(len(said))), "not a row of the report", x)

    n = q["reconstructed_points_count"]
    row("Reconstructed Points", f"{n} over {q['initial_points_count']} points ({n / q['initial_points_count'] * 100:.1f}%)")
    row("Reconstructed Components", f"{q['components']} component")
    f = want["features_statistics"]
    for k in ("detected", "reconstructed"):
        row(k.capitalize() + " Features", f"{f[k + '_features']['median']} features")
        check(any(a.strip() == k.capitalize() and b == [f"{f[k + '_features'][x]:.0f}" for x in ("min", "max", "mean", "median")] for a, b in zip(said, (said[i + 1 : i + 5] for i in range(len(said))))), "not a row of the report", k, f)
    from_ = [("GPS", q["has_gps"] and "average_error" in want["gps_errors"], "gps_errors"), ("GCP", q["has_gcp"] and "average_error" in want["gcp_errors"], "gcp_errors")]
    if any(x[1] for x in from_):
        row("Geographic Reference", " and ".join(x[0] for x in from_ if x[1]), " / ".join(x[0] for x in from_ if x[1]) + " errors", " / ".join(f"{want[x[2]]['average_error']:.2f}" for x in from_ if x[1]) + " meters")
    e = want["processing_statistics"]
    row("Date", e["date"], "Area Covered", f"{e['area'] / 1e6:.6f} km²", "Processing Time", f"{e['steps_times']['Total Time']:.2f} seconds")
    row(*want["processing_statistics"]["steps_times"])
    row(*(f"{v:.2f} sec." for v in want["processing_statistics"]["steps_times"].values()))
    for kind in ("gps", "gcp"):
        e = want[kind + "_errors"]
        if "average_error" in e:
            row(*sum(([c.upper() + " Error (meters)"] + [f"{e[k][c]:.3f}" for k in ("mean", "std", "error")] for c in "xyz"), []), "Total", "", "", f"{e['average_error']:.3f}")
    for cid, e in want["camera_errors"].items():
        b = e["bias"]
        row(cid, f"{b['scale']:.2f}", *("      ".join(f"{x:.2f}" for x in b[k]) for k in ("translation", "rotation")))
        if cid in seen:
            row(cid, "", *e["initial_values"], "Initial", *(f"{x:.4f}" for x in e["initial_values"].values()), "Optimized", *(f"{x:.4f}" for x in e["optimized_values"].values()))
    hist = sorted((int(k), v) for k, v in q["histogram_track_length"].items() if 2 <= int(k) <= 10)
    if hist:
        row("Length", *(str(k) for k, _ in hist), "Count", *(str(v) for _, v in hist))
    t.nontrivial(len(seen) > 1)


def near(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(near(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        return abs(a - b) <= 1e-9 * (1 + abs(b))
    return a == b
