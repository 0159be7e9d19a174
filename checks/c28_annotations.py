"""C28: the annotation tool keeps the control points it is given and measures them in the reconstruction."""

import json
import math
import os
import sys

import cams
import numpy as np
import scenes
from gen import rng, rodrigues, rot_angle, seeds, st
from harness import Check, Skip, check
from opensfm import dataset, io, pygeometry, pymap, types

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(dataset.__file__))))
import contextlib
import io as pyio

from annotation_gui_gcp import run_ba as B
from annotation_gui_gcp.lib import gcp_manager as G

CHECK = Check("C28")
CHECK.assumptions = ["camera models (C02), poses (C03), triangulation (C04), control point files (C11), geodesy (C01)"]
SHOTS = ["a.jpg", "aa.jpg", "b.jpg", "é 1.png", "model.glb", "c.jpg"]


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(pyio.StringIO()):
        yield


def same_file(manager, model, info):
    got = manager.points_to_json()
    check([p["id"] for p in got] == list(model), "points", info, [p["id"] for p in got], list(model))
    for p in got:
        w = model[p["id"]]
        obs = []
        for s, (xy, prec) in w["obs"].items():
            obs.append({"shot_id": s, "projection" if len(xy) == 2 else "point": list(xy), "precision": prec})
        check(p["observations"] == obs, "observations", info, p["observations"], obs)
        check(p.get("position") == w["geo"], "position", info, p.get("position"), w["geo"])


OPS = st.fixed_dictionaries({"seed": seeds, "steps": st.integers(1, 60), "size": st.integers(0, 60)})


@CHECK.sub("manager", OPS, 600, rule="at least ten operations, with a file written and read")
def manager(case, t):
    g = rng(case["seed"])
    d = t.tmpdir()
    with quiet():
        m = G.GroundControlPointManager(d)
        model, reproj, saves, saved = {}, {}, 0, {}
        for step in range(case["steps"]):
            op = ["add", "add", "observe", "observe", "observe", "observe", "forget", "remove", "file", "visible", "errors", "known", "back"][int(g.integers(13))]
            ids = list(model)
            pid = ids[int(g.integers(len(ids)))] if ids else None
            shot = SHOTS[int(g.integers(len(SHOTS)))]
            if op == "add":
                new = m.add_point()
                check(isinstance(new, str) and new not in model and m.point_exists(new), "new point", new, ids)
                model[new] = {"obs": {}, "geo": None}
            elif op == "observe" and pid:
                xy = tuple(float(x) for x in g.uniform(-0.5, 0.5, 3 if shot.endswith("glb") else 2))
                prec = float(g.uniform(0, 0.1))
                geo = None
                if g.random() < 0.3:
                    geo = {"latitude": float(g.uniform(-89, 89)), "longitude": float(g.uniform(-179, 179)), "measured_at": int(g.integers(1e9))}
                    for k in ("altitude", "horizontal_std", "vertical_std"):
                        if g.random() < 0.5:
                            geo[k] = float(g.choice([0.0, g.uniform(-10, 100)]))
                try:
                    m.add_point_observation(pid, shot, xy, prec, geo)
                    fresh = True
                except AssertionError:
                    fresh = False
                check(fresh == (shot not in model[pid]["obs"]), "second observation in an image", pid, shot, fresh)
                if fresh:
                    model[pid]["obs"][shot] = (xy, prec)
                    if geo:
                        model[pid]["geo"] = dict(geo, horizontal_std=geo.get("horizontal_std", 100))
            elif op == "forget" and pid:
                latlon = bool(g.random() < 0.3)
                m.remove_point_observation(pid, shot, latlon)
                model[pid]["obs"].pop(shot, None)
                if latlon:
                    model[pid]["geo"] = None
                if shot in reproj.get(pid, {}):
                    reproj[pid][shot] = 0
            elif op == "remove":
                who = pid if pid and g.random() < 0.8 else "nobody"
                m.remove_gcp(who)
                model.pop(who, None)
                check(not m.point_exists(who), "removed point", who)
            elif op == "file":
                name = None if g.random() < 0.5 else d + "/other.json"
                m.write_to_file(name)
                name = name or d + "/ground_control_points.json"
                with open(name) as f:
                    raw = json.load(f)
                check([p["id"] for p in raw["points"]] == ids, "points in the file", raw)
                with open(name) as f:
                    read = io.read_ground_control_points(f)  # by the rest of OpenSfM
                for p, k in zip(read, ids):
                    w = model[k]
                    check(p.id == k and [o.shot_id for o in p.observations] == list(w["obs"]), "point read", k)
                    for o in p.observations:
                        xy = w["obs"][o.shot_id][0]
                        check(len(xy) == 3 or np.array_equal(o.projection, xy), "projection read", k, o.projection, xy)
                    check(bool(p.lla) == bool(w["geo"]), "position read", p.lla)
                    if w["geo"]:
                        check(p.lla["latitude"] == w["geo"]["latitude"] and p.lla["longitude"] == w["geo"]["longitude"] and p.has_altitude == ("altitude" in w["geo"]) and (not p.has_altitude or p.lla["altitude"] == w["geo"]["altitude"]), "position read", p.lla, w["geo"])
                if g.random() < 0.5:
                    m = G.GroundControlPointManager(d)
                    m.gcp_reprojections = {k: {s: {"error": e} for s, e in v.items()} for k, v in reproj.items()}
                m.load_from_file(name if g.random() < 0.5 or name.endswith("other.json") else None)
                saves += 1
                saved[name] = json.dumps(model)
            elif op == "back" and saved:  # what was written before, whatever was done since
                name = list(saved)[int(g.integers(len(saved)))]
                m.load_from_file(name)
                model = json.loads(saved[name])
            elif op == "visible":
                got = m.get_visible_points_coords(shot)
                want = {k: tuple(w["obs"][shot][0]) + (w["obs"][shot][1],) for k, w in model.items() if shot in w["obs"]}
                check(dict(got) == want and list(got) == list(want), "points in an image", dict(got), want)
            elif op == "errors":
                reproj = {k: {s: float(g.uniform(0, 9)) for s in SHOTS if g.random() < 0.5} for k in ids + ["nobody"]}
                with open(d + "/errors.json", "w") as f:
                    json.dump({k: {s: {"error": e} for s, e in v.items()} for k, v in reproj.items()}, f)
                m.load_gcp_reprojections(d + "/errors.json")
            elif op == "known" and pid:
                o = m.get_observation(pid, shot)
                w = model[pid]["obs"].get(shot)
                check((o is None) == (w is None) and (o is None or o.image_id == shot), "observation", o, w)
            # at all times
            same_file(m, model, (step, op))
            worst = max(((e, k) for k, v in reproj.items() if k in model for e in v.values() if e > 0), default=(0, None))
            check(m.get_worst_gcp() == worst[1], "worst point", m.get_worst_gcp(), worst)
            if worst[1]:
                some = [s for s in SHOTS if g.random() < 0.7]
                e = {s: x for s, x in reproj[worst[1]].items() if s in some}
                got = m.shot_with_max_gcp_error(some, worst[1])
                check((got is None) == (not e) and (got is None or e[got] == max(e.values())), "worst image", got, e)
        m.load_gcp_reprojections(d + "/nothing.json")
        check(m.gcp_reprojections == {} and m.get_worst_gcp() is None, "errors of no file")
    if case["steps"] >= 10 and saves:
        t.nontrivial()


class Scene:
    """Reconstructions with a common reference, cameras and exact annotations of control points."""

    def __init__(self, g, case):
        self.tracks = pymap.TracksManager()
        self.recs, self.R, self.o, self.cam = [], {}, {}, {}
        self.ref = scenes.converter()
        self.P = g.uniform(-3, 3, (case["gcps"], 3)) * [1, 1, 0.3]
        self.obs = {k: {} for k in range(case["gcps"])}
        self.points = {}
        for j in range(case["recs"]):
            r = types.Reconstruction()
            r.reference = self.ref
            z = case["cameras"][j % len(case["cameras"])]
            q = cams.make(z)
            q.id = f"cam{j % len(case['cameras'])}"
            r.add_camera(q)
            for k in range(case["images"]):
                n = f"i{j}_{k}"
                d = g.normal(0, 1, 3) + [0, 0, 2]
                d /= np.linalg.norm(d)
                o = d * g.uniform(9, 14)
                R = scenes.look(-d, rodrigues(g.normal(0, 2, 3))[0])
                r.create_shot(n, q.id, pygeometry.Pose(R, -R @ o))
                self.R[n], self.o[n], self.cam[n] = R, o, z
                for i, X in enumerate(self.P):
                    L = R @ (X - o)
                    if math.atan2(math.hypot(L[0], L[1]), L[2]) < 0.55 and g.random() < 0.8:
                        self.obs[i][n] = cams.project(z, L) + (g.normal(0, case["noise"], 2) if case["noise"] else 0)
            for i in range(8):
                x = g.uniform(-3, 3, 3)
                r.create_point(f"t{i}", x).color = [int(v) for v in g.integers(0, 256, 3)]
                self.points[j, f"t{i}"] = x
                for k in range(case["images"]):
                    if g.random() < 0.7:
                        self.tracks.add_observation(f"i{j}_{k}", f"t{i}", pymap.Observation(*g.uniform(-0.3, 0.3, 2), 0.01, 1, 2, 3, i))
            self.recs.append(r)
        self.gcps = []
        for i, X in enumerate(self.P):
            p = pymap.GroundControlPoint()
            p.id = f"g{i}"
            if not (case["lone"] and i == 0):
                lat, lon, alt = self.ref.to_lla(*(X + (g.normal(0, case["off"], 3) if case["off"] else 0)))
                p.lla = {"latitude": lat, "longitude": lon, "altitude": alt}
                p.has_altitude = True
            p.observations = [pymap.GroundControlPointObservation(n, xy) for n, xy in self.obs[i].items()] + [pymap.GroundControlPointObservation("elsewhere.jpg", np.zeros(2))]
            self.gcps.append(p)


MEASURE = st.fixed_dictionaries({
    "seed": seeds, "recs": st.integers(1, 3), "images": st.integers(2, 5), "gcps": st.integers(1, 8), "cameras": st.lists(cams.cameras(types=("perspective", "brown", "fisheye"), amp=0.05), min_size=1, max_size=2),
    "noise": st.sampled_from([0.0, 0.0, 0.002]), "off": st.sampled_from([0.0, 2.0]), "lone": st.booleans(), "size": st.integers(0, 10),
})


def annotated(s, i, j):
    return [n for n in s.obs[i] if n in s.recs[j].shots]


@CHECK.sub("errors", MEASURE, 300, rule="a control point seen in two images")
def errors(case, t):
    g = rng(case["seed"])
    s = Scene(g, case)
    j = int(g.integers(len(s.recs)))
    r = s.recs[j]
    geo = B.gcp_geopositional_error(s.gcps, r)
    rep = B.reproject_gcps(s.gcps, r, 1)
    coords = B.triangulate_gcps(s.gcps, r)
    check(set(geo) == set(rep) == {p.id for p in s.gcps}, "points measured", sorted(geo), sorted(rep))
    flat, wrong = [], {}
    for i, p in enumerate(s.gcps):
        seen = annotated(s, i, j)
        X = coords[i]
        if len(seen) < 2:
            check(X is None and rep[p.id] == {} and math.isnan(geo[p.id]["error"]) and math.isnan(geo[p.id]["error_planar"]), "a point seen once", p.id)
            wrong[p.id] = 0
            continue
        rays = [s.P[i] - s.o[n] for n in seen]
        angle = max(math.acos(min(1, a @ b / np.linalg.norm(a) / np.linalg.norm(b))) for a in rays for b in rays)
        if angle < math.radians(5):
            raise Skip("rays nearly parallel")
        check(X is not None, "a point that cannot be triangulated", p.id, seen)
        if not case["noise"]:
            check(np.linalg.norm(X - s.P[i]) < 1e-4, "triangulated point", X, s.P[i])
        if p.lla:
            e = s.ref.to_topocentric(*[p.lla[k] for k in ("latitude", "longitude", "altitude")])
            out = geo[p.id]
            check(np.allclose(out["expected_xyz"], e, atol=1e-6) and np.allclose(out["triangulated_xyz"], X, atol=1e-9), "positions", out, e)
            check(abs(out["error"] - np.linalg.norm(np.array(e) - X)) < 1e-6, "error", out["error"], np.linalg.norm(np.array(e) - X))
            check(abs(out["error_planar"] - np.linalg.norm((np.array(e) - X)[:2])) < 1e-3 * (1 + out["error"]), "planar error", out["error_planar"])
            check(np.allclose(out["expected_lla"], [p.lla[k] for k in ("latitude", "longitude", "altitude")], atol=1e-6) and np.allclose(out["triangulated_lla"], s.ref.to_lla(*X), atol=1e-9), "geographic positions", out)
        else:
            check(math.isnan(geo[p.id]["error"]), "error of a point without position", geo[p.id])
        check(set(rep[p.id]) == set(s.obs[i]) | {"elsewhere.jpg"}, "images of a point", sorted(rep[p.id]))
        for n, v in rep[p.id].items():
            check(np.allclose(v["lla"], s.ref.to_lla(*X), atol=1e-9), "lla", v)
            if n in r.shots:
                u = cams.project(s.cam[n], s.R[n] @ (X - s.o[n]))
                check(np.allclose(v["reprojection"], u, atol=1e-6) and abs(v["error"] - np.linalg.norm(u - s.obs[i][n])) < 1e-6, "reprojection", n, v, u)
            else:
                check(v["error"] == 0 and "reprojection" not in v, "error in an image elsewhere", v)
            flat.append(v["error"])
        wrong[p.id] = sum(v["error"] > 0.002 for v in rep[p.id].values())
        t.nontrivial()
    order = B.get_sorted_reprojection_errors(rep)
    check(len(order) == len(flat) and all(a[2] >= b[2] for a, b in zip(order, order[1:])) and all(rep[a][b]["error"] == e for a, b, e in order) and len({x[:2] for x in order}) == len(flat), "sorted errors", order)
    check(B.get_number_of_wrong_annotations_per_gcp(rep, 0.002) == wrong, "wrong annotations", wrong)
    if flat and all(len(v) for v in rep.values()):
        check(abs(B.compute_gcp_std(rep) - math.sqrt(np.mean(np.square(flat)))) < 1e-12, "deviation", B.compute_gcp_std(rep))


@CHECK.sub("merging", MEASURE, 200, rule="two or more reconstructions")
def merging(case, t):
    g = rng(case["seed"])
    s = Scene(g, case)
    merged = B.merge_reconstructions(s.recs, s.tracks)
    check(set(merged.shots) == set(s.R), "images merged", sorted(merged.shots))
    check(set(merged.points) == {f"R{j}_{k}" for j, k in s.points}, "points merged", len(merged.points))
    for (j, k), X in s.points.items():
        p = merged.points[f"R{j}_{k}"]
        check(np.allclose(p.coordinates, X) and list(p.color) == list(s.recs[j].points[k].color), "point merged", j, k)
        want = {n for n in s.tracks.get_shot_ids() if n in s.recs[j].shots and k in s.tracks.get_shot_observations(n)}
        check({x.id for x in p.get_observations()} == want, "observations merged", {x.id for x in p.get_observations()}, want)
    # a motion of the merged reconstruction is found in each part
    shift = g.normal(0, 1, 3)
    for p in merged.points.values():
        p.coordinates = np.array(p.coordinates) + shift
    for i in merged.rig_instances.values():
        i.pose.set_origin(i.pose.get_origin() + shift)
    parts = B.resplit_reconstruction(merged, s.recs)
    check(len(parts) == len(s.recs), "parts", len(parts))
    for j, (a, b) in enumerate(zip(parts, s.recs)):
        check(set(a.shots) == set(b.shots) and set(a.points) == set(b.points) and set(a.cameras) == set(b.cameras), "contents of a part", j, sorted(a.cameras), sorted(b.cameras))
        check(a.reference == merged.reference, "reference of a part")
        for n in a.shots:
            check(np.allclose(a.shots[n].pose.get_origin(), s.o[n] + shift, atol=1e-9) and rot_angle(a.shots[n].pose.get_rotation_matrix().T @ s.R[n]) < 1e-6, "image of a part", n)
            check(a.shots[n].camera.id == b.shots[n].camera.id, "camera", n)
        for k in a.points:
            check(np.allclose(a.points[k].coordinates, s.points[j, k] + shift) and list(a.points[k].color) == list(b.points[k].color), "point of a part", k)
    if len(parts) > 1:
        t.nontrivial()


@CHECK.sub("models", st.fixed_dictionaries({**{k: v for k, v in {"seed": seeds}.items()}, "gcps": st.integers(3, 9), "recs": st.just(1), "images": st.integers(3, 6), "cameras": st.lists(cams.cameras(types=("perspective", "fisheye"), amp=0.05), min_size=1, max_size=1), "noise": st.just(0.0), "off": st.just(0.0), "lone": st.booleans(), "old": st.booleans(), "size": st.integers(0, 10)}), 200, rule="three or more points aligned")
def models(case, t):
    """Control points annotated in a 3D model are shown where they are in the model."""
    g = rng(case["seed"])
    s = Scene(g, case)
    d = t.tmpdir()
    sc, R, b = float(g.uniform(0.1, 10)), rodrigues(g.normal(0, 2, 3)), g.normal(0, 10, 3)
    file = {"points": []}
    inmodel = []
    for i, p in enumerate(s.gcps):
        obs = [{"shot_id": n, "projection": [float(x) for x in xy]} for n, xy in s.obs[i].items()]
        if g.random() < 0.85:
            key = "projection" if case["old"] else "point"
            obs.insert(int(g.integers(len(obs) + 1)), {"shot_id": "model.glb", key: [float(x) for x in sc * R @ s.P[i] + b]})
            inmodel.append(i)
        file["points"].append({"id": p.id, "observations": obs})
    with open(d + "/ground_control_points.json", "w") as f:
        json.dump(file, f)
    open(d + "/image_list.txt", "w").write("a.jpg\n")
    data = dataset.DataSet(d)
    B.fix_3d_annotations_in_gcp_file(data)
    want = json.loads(json.dumps(file).replace("\u0000", ""))
    for p in want["points"]:
        for o in p["observations"]:
            if len(o.get("projection", [])) == 3:
                o["point"] = o.pop("projection")
    with open(d + "/ground_control_points.json") as f:
        check(json.load(f) == want, "annotations of models")
    got = B.load_3d_annotations_from_gcp_file(data)
    check(sorted(got) == (["model.glb"] if inmodel else []), "models", sorted(got))
    check([(list(x), k) for x, k in got.get("model.glb", [])] == [([o["point"] for o in p["observations"] if "point" in o][0], p["id"]) for p in want["points"] if any("point" in o for o in p["observations"])], "points of the model", got)
    ok = [i for i in inmodel if len(annotated(s, i, 0)) >= 2]
    # points on a plane or a line, or hardly moved between images, fix no similarity
    if len(ok) < 4:
        raise Skip("too few points")
    for i in ok:
        rays = [s.P[i] - s.o[n] for n in annotated(s, i, 0)]
        if max(math.acos(min(1, a @ c / np.linalg.norm(a) / np.linalg.norm(c))) for a in rays for c in rays) < math.radians(3):
            raise Skip("rays nearly parallel")
    C = s.P[ok] - s.P[ok].mean(0)
    if np.linalg.svd(C)[1][2] < 0.1:
        raise Skip("flat")
    gcps = [s.gcps[i] for i in inmodel]
    places, alignment = B.align_3d_annotations_to_reconstruction(gcps, got, "model.glb", s.recs[0])
    for i in inmodel:
        v = places[s.gcps[i].id]
        check((v is None) == (i not in ok), "place in the model", i, v)
        if v is not None:
            check(np.linalg.norm(np.array(v) - (sc * R @ s.P[i] + b)) < 1e-3 * (1 + sc), "place in the model", v, sc * R @ s.P[i] + b)
    check(abs(alignment["s"] - sc) < 1e-3 * sc and rot_angle(np.array(alignment["A"]).T @ R) < 1e-3 and np.linalg.norm(np.array(alignment["b"]) - b) < 1e-2 * (1 + sc), "alignment", alignment, sc, b)
    t.nontrivial()
