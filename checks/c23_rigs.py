"""C23: rigs are assembled from names and calibrated from poses."""

import itertools
import json
import logging
import math
import os

import numpy as np
from gen import rng, rodrigues, rot_angle, seeds, ugrid
from harness import Check, Skip, check
from hypothesis import strategies as st
from opensfm import dataset, geo, pygeometry, pymap, rig, types
from opensfm.actions import create_rig, extract_metadata

CHECK = Check("C23")
logging.getLogger("opensfm").setLevel(logging.CRITICAL)

TOKENS = ["left", "RIGHT", "cam0", "cam1", "NIR", "G", "back", "_f_", "R/", "-t"]


@CHECK.sub("patterns", st.fixed_dictionaries({
    "seed": seeds,
    "cameras": st.lists(st.sampled_from(TOKENS), min_size=1, max_size=5, unique=True),
    "instances": st.integers(0, 6),
    "missing": st.sampled_from([0.0, 0.0, 0.2, 0.5]),
    "singles": st.integers(0, 3),
    "place": st.sampled_from(["{c}{i}.jpg", "{i}{c}.jpg", "d{i}/x{c}.png", "{c}{i}", "{c}/{i}{c}.jpg", "{c}{c}{i}.jpg"]),
    "parens": st.booleans(),
}), quick=300, rule="an instance of at least two images, and another one")
def patterns(case, t):
    """Images whose names differ by the part of the camera only are one instance."""
    g = rng(case["seed"])
    ids = [f"{int(x):05d}" for x in g.choice(100000, case["instances"], replace=False)]
    want, images, single = {}, [], []
    for i in ids:
        for c in case["cameras"]:
            if g.random() >= case["missing"]:
                n = case["place"].format(c=c, i=i)
                images.append(n)
                want.setdefault(case["place"].format(c="", i=i), []).append((n, "rig_" + c))
    for k in range(case["singles"]):
        n = f"1234{k}zz.tif"
        images.append(n)
        single.append(n)
    order = g.permutation(len(images))
    images = [images[k] for k in order]
    pats = {"rig_" + c: f"({c})" if case["parens"] else c for c in case["cameras"]}
    for i, c in itertools.product(ids, case["cameras"]):
        # a name of a camera that is in the name of another image makes names ambiguous
        n = case["place"].format(c=c, i=i)
        if sum(x in n for x in case["cameras"]) > 1:
            raise Skip
    if any(x in n for n in single for x in case["cameras"]):
        raise Skip
    got, alone = rig.create_instances_with_patterns(list(images), dict(pats))
    check(set(got) == set(want), "instances", sorted(got), sorted(want))
    for i in want:
        check(sorted(got[i]) == sorted(want[i]), "images of an instance", i, got[i], want[i])
    check(sorted(alone) == sorted(single), "images without a rig", alone, single)
    groups = rig.group_instances(got)
    check(sorted(map(str, (sorted(x) for v in groups.values() for x in v))) == sorted(map(str, (sorted(x) for x in got.values()))), "groups do not hold the instances")
    for v in groups.values():
        check(len({frozenset(c for _, c in x) for x in v}) == 1, "a group of different rigs")
    check(len(groups) == len({frozenset(c for _, c in x) for x in got.values()}), "instances of a rig in two groups")
    per = rig.rig_assignments_per_image(got)
    check(set(per) == {n for v in got.values() for n, _ in v}, "assigned images")
    for i, v in got.items():
        for n, c in v:
            check(per[n][0] == i and per[n][1] == c and sorted(per[n][2]) == sorted(m for m, _ in v), "assignment of", n, per[n])
    t.nontrivial(len(want) > 1 and max(map(len, want.values())) > 1)


def rig_of(g, n, spread, kind):
    """Rotations rig to camera and origins in the rig."""
    out = []
    for j in range(n):
        if kind == "ring":
            A = rodrigues([0, 2 * math.pi * j / n, 0])
        elif kind == "back":
            A = rodrigues([0, math.pi * (j % 2), 0]) @ rodrigues([0.3 * (j // 2), 0, 0])
        else:
            A = rodrigues(g.uniform(-1, 1, 3) * spread)
        out.append((A, g.uniform(-0.4, 0.4, 3)))
    return out


@CHECK.sub("relative", st.fixed_dictionaries({
    "seed": seeds,
    "cameras": st.integers(2, 6),
    "kind": st.sampled_from(["ring", "back", "any", "any"]),
    "spread": st.sampled_from([0.0, 0.05, 0.5, 1.7]),
    "instances": st.integers(1, 8),
    "upright": st.booleans(),
    "noise": st.sampled_from([0.0, 0.0, 1e-3, 1e-2]),
    "lost": st.sampled_from([0.0, 0.1, 0.3]),
    "partial": st.integers(0, 3),
    "scale": st.sampled_from([1.0, 1.0, 3.0]),
}), quick=200, rule="three instances turned differently, cameras at least 0.1 rad apart")
def relative(case, t):
    """The poses of the cameras of a rig relative to one another, whatever the poses of the rig."""
    g = rng(case["seed"])
    n = case["cameras"]
    cams = rig_of(g, n, case["spread"], case["kind"])
    rec = types.Reconstruction()
    cam = pygeometry.Camera.create_spherical()
    cam.id = "c"
    rec.add_camera(cam)
    inst, full, small = {}, 0, 0
    base = np.array([[1, 0, 0], [0, 0, -1], [0, 1, 0.0]])

    def add(k, members, lost):
        R = base @ rodrigues([0, 0, g.uniform(-math.pi, math.pi)]) if case["upright"] else rodrigues(g.normal(0, 1, 3) * 2)
        o = g.uniform(-20, 20, 3)
        L, complete = [], True
        for j in members:
            name = f"{k}_{j}"
            L.append((name, f"rc{j}"))
            if g.random() < lost:
                complete = False
                continue
            A, c = cams[j]
            Rj = rodrigues(g.normal(0, 1, 3) * case["noise"]) @ A @ R
            oj = o + R.T @ c * case["scale"] + g.normal(0, 1, 3) * case["noise"]
            rec.create_shot(name, "c", pygeometry.Pose(Rj, -Rj @ oj))
        order = g.permutation(len(L))
        inst[k] = [L[i] for i in order]
        return complete

    for k in range(case["instances"]):
        full += add(f"i{k}", range(n), case["lost"])
    if n > 2 and case["partial"] < case["instances"]:
        for k in range(case["partial"]):  # instances of some of the cameras only
            small += add(f"p{k}", range(n - 1), 0.0)
    keys = list(inst)
    inst = {keys[k]: inst[keys[k]] for k in g.permutation(len(keys))}
    got = rig.create_rig_cameras_from_reconstruction(rec, inst)
    if full:
        check(set(got) == {f"rc{j}" for j in range(n)}, "calibrated cameras", sorted(got))
        members = range(n)
    elif small:
        check(set(got) == {f"rc{j}" for j in range(n - 1)}, "calibrated cameras", sorted(got))
        members = range(n - 1)
    else:
        check(not got, "cameras out of nothing", sorted(got))
        return
    for j in members:
        check(got[f"rc{j}"].id == f"rc{j}", "name of a camera")
    tol = 1e-6 + case["noise"] * 8
    for a, b in itertools.combinations(members, 2):
        P, Q = got[f"rc{a}"].pose, got[f"rc{b}"].pose
        (A, ca), (B, cb) = cams[a], cams[b]
        r = rot_angle(Q.get_rotation_matrix() @ P.get_rotation_matrix().T @ (B @ A.T).T)
        check(r < tol, "turn between cameras", a, b, r)
        v = P.get_rotation_matrix() @ (Q.get_origin() - P.get_origin())
        w = A @ (cb - ca) * case["scale"]
        check(np.linalg.norm(v - w) < tol * (1 + 3 * case["scale"]), "shift between cameras", a, b, v, w)
    if not (small and full) and len({got[f"rc{j}"].pose.get_origin().tobytes() for j in members}) > 1:
        # positions are measured for the rig as the mean of those of its images
        m = np.mean([got[f"rc{j}"].pose.get_origin() for j in members], axis=0)
        check(np.linalg.norm(m) < tol * (1 + 3 * case["scale"]), "the rig is not at the mean of its cameras", m)
    wide = case["kind"] != "any" or case["spread"] > 0.1
    t.nontrivial(max(full, small) >= 3 and wide)
    t.label(case["kind"])


def touch(path, text="x"):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def snapshot(root, but):
    out = {}
    for base, dirs, names in os.walk(root):
        dirs[:] = [d for d in dirs if os.path.join(base, d) != but]
        for n in names:
            with open(os.path.join(base, n), "rb") as f:
                out[os.path.relpath(os.path.join(base, n), root)] = f.read()
    return out


def write_dataset(root, g, names, images="images", masks=0.0, segmentations=0.0, extras=(), gps=None, models=("c0", "c1")):
    has = {"mask": set(), "seg": set()}
    files = []
    for k, n in enumerate(names):
        touch(os.path.join(root, images, n), "pixels of " + n)
        files.append(os.path.join(images, n))
        if g.random() < masks:
            touch(os.path.join(root, "masks", n + ".png"), "mask of " + n)
            has["mask"].add(n)
        if g.random() < segmentations:
            touch(os.path.join(root, "segmentations", n + ".png"), "segmentation of " + n)
            has["seg"].add(n)
        e = {"camera": models[k % len(models)], "make": "m", "model": "n", "width": 40, "height": 30, "projection_type": "perspective", "focal_ratio": 0.8, "orientation": 1, "capture_time": float(k), "gps": {}}
        if gps is not None:
            e["gps"] = gps[k]
        touch(os.path.join(root, "exif", n + ".exif"), json.dumps(e))
    if images != "images":
        touch(os.path.join(root, "image_list.txt"), "".join(f + "\n" for f in files))
    touch(os.path.join(root, "config.yaml"), json.dumps({"processes": 1, "min_ray_angle_degrees": 1.25, "rig_calibration_subset_size": 6}))
    model = {"projection_type": "perspective", "width": 40, "height": 30, "focal": 0.8, "k1": 0.0, "k2": 0.0}
    if "camera_models" in extras:
        touch(os.path.join(root, "camera_models.json"), json.dumps({m: dict(model) for m in models}))
    if "camera_overrides" in extras:
        touch(os.path.join(root, "camera_models_overrides.json"), json.dumps({models[0]: dict(model, focal=0.91)}))
    if "exif_overrides" in extras:
        touch(os.path.join(root, "exif_overrides.json"), json.dumps({n: {"gps": {"latitude": 1.5}} for n in names}))
    return has


SUBSET = st.fixed_dictionaries({
    "seed": seeds,
    "n": st.integers(1, 9),
    "take": st.integers(1, 9),
    "images": st.sampled_from(["images", "images", "photos/day"]),
    "masks": st.sampled_from([0.0, 0.5, 1.0]),
    "segmentations": st.sampled_from([0.0, 0.5, 1.0]),
    "extras": st.lists(st.sampled_from(["camera_models", "camera_overrides", "exif_overrides"]), unique=True, max_size=3),
    "relative": st.booleans(),
    "again": st.booleans(),
})


@CHECK.sub("subset", SUBSET, quick=150, rule="some images of several are taken, with masks or segmentations")
def subset(case, t):
    """A subset of a dataset is a dataset of its own, and leaves the first one as it is."""
    g = rng(case["seed"])
    top = t.tmpdir()
    names = [f"im{k}.jpg" for k in range(case["n"])]
    root = os.path.join(top, "data")
    has = write_dataset(root, g, names, case["images"], case["masks"], case["segmentations"], case["extras"])
    here = os.getcwd()
    try:
        if case["relative"]:
            os.chdir(top)
        d = dataset.DataSet("data" if case["relative"] else root)
        before = snapshot(root, os.path.join(root, "part"))
        for turn in range(2 if case["again"] else 1):
            pick = sorted(str(x) for x in g.choice(names, min(case["take"], len(names)), replace=False))
            if turn:
                d.io_handler.rm_if_exist(os.path.join(d.data_path, "part"))
            s = d.subset("part", list(pick))
            check(snapshot(root, os.path.join(root, "part")) == before, "the dataset changed")
            check(sorted(s.images()) == pick, "images of the subset", s.images(), pick)
            check(os.path.abspath(s.data_path) == os.path.join(root, "part"), "place of the subset")
            check(s.config["min_ray_angle_degrees"] == 1.25, "configuration of the subset")
            for n in pick:
                with s.open_image_file(n) as f:
                    check(f.read() == b"pixels of " + n.encode(), "image", n)
                check((n in s.mask_files) == (n in has["mask"]), "mask of", n)
                if n in has["mask"]:
                    with open(s.mask_files[n]) as f:
                        check(f.read() == "mask of " + n, "mask of", n)
                p = s._segmentation_file(n)
                check(os.path.isfile(p) == (n in has["seg"]), "segmentation of", n)
                if n in has["seg"]:
                    with open(p) as f:
                        check(f.read() == "segmentation of " + n, "segmentation of", n)
            check(s.camera_models_overrides_exists() == ("camera_overrides" in case["extras"]), "camera overrides")
            check(s.exif_overrides_exists() == ("exif_overrides" in case["extras"]), "exif overrides")
            if "exif_overrides" in case["extras"]:
                check(s.load_exif_overrides() == d.load_exif_overrides(), "exif overrides")
            # the subset is worked on
            for k, n in enumerate(pick):
                s.save_exif(n, dict(d.load_exif(n), camera="c0"))
            extract_metadata.run_dataset(s)
            check("c0" in s.load_camera_models(), "camera models of the subset")
            s.save_reconstruction([])
            check(snapshot(root, os.path.join(root, "part")) == before, "work on a subset changed the dataset", [k for k, v in snapshot(root, os.path.join(root, "part")).items() if before.get(k) != v])
    finally:
        os.chdir(here)
    t.nontrivial(len(names) > len(pick) and bool(has["mask"] or has["seg"]))


@CHECK.sub("propose", st.fixed_dictionaries({
    "seed": seeds,
    "cameras": st.integers(1, 4),
    "instances": st.integers(1, 12),
    "other": st.integers(0, 4),
    "far": st.sampled_from([0, 0, 3]),
    "rounds": st.integers(1, 4),
}), quick=100, rule="several instances of several images")
def propose(case, t):
    """Images to calibrate with are whole instances, at most as many as asked for."""
    g = rng(case["seed"])
    root = os.path.join(t.tmpdir(), "data")
    ref = geo.TopocentricConverter(41.3, -2.7, 0)
    inst, names, gps = {}, [], []

    def add(i, members, shift):
        o = g.uniform(-20, 20, 2) + shift
        for j in members:
            n = f"{i}_{j}.jpg"
            names.append(n)
            lat, lon, alt = ref.to_lla(o[0], o[1], 0.0)
            gps.append({"latitude": float(lat), "longitude": float(lon), "altitude": 2.0, "dop": 5.0})
            inst.setdefault(i, []).append((n, f"rc{j}"))

    for k in range(case["instances"]):
        add(f"a{k}", range(case["cameras"]), 0)
    for k in range(case["other"]):
        add(f"b{k}", ["x", "y"], 0)
    write_dataset(root, g, names + ["single.jpg"], gps=gps + [{}], models=("c0",))
    d = dataset.DataSet(root)
    size = d.config["rig_calibration_subset_size"]
    proposals = rig.propose_subset_dataset_from_instances(d, inst, "calibration")
    known = [sorted(v) for v in inst.values()]
    for s, got in itertools.islice(proposals, case["rounds"]):
        check(sorted(s.images()) == sorted(n for v in got for n, _ in v), "images of the proposal")
        for v in got:
            check(sorted(v) in known, "an instance that is not", v)
        check(len({str(sorted(v)) for v in got}) == len(got), "instance twice")
        for prefix, total in (("a", case["instances"]), ("b", case["other"])):
            n = sum(v[0][0].startswith(prefix) for v in got)
            check(n <= size, "too many instances", n)
            check(n >= min(total, size // 2), "too few instances", n, "of", total)
        with s.open_image_file(s.images()[0]) as f:
            check(f.read() == b"pixels of " + s.images()[0].encode(), "image of the proposal")
        rec = types.Reconstruction()
        c = pygeometry.Camera.create_spherical()
        c.id = "c"
        rec.add_camera(c)
        lost = set()
        for k, v in enumerate(got):
            for n, _ in v:
                if g.random() < 0.15:
                    lost.add(k)
                else:
                    rec.create_shot(n, "c")
        check(rig.count_reconstructed_instances(got, rec) == len(got) - len(lost), "count of reconstructed instances")
    t.nontrivial(case["cameras"] > 1 and case["instances"] > 1)


@CHECK.sub("debug", st.fixed_dictionaries({"seed": seeds, "cameras": st.integers(1, 4), "instances": st.integers(1, 5), "singles": st.integers(0, 2)}), quick=60, rule="several instances of several images")
def debug(case, t):
    """The reconstruction that shows the assembled rigs."""
    g = rng(case["seed"])
    root = os.path.join(t.tmpdir(), "data")
    ref = geo.TopocentricConverter(41.3, -2.7, 0)
    cams = rig_of(g, case["cameras"], 1.0, "any")
    names, gps, inst, place = [], [], {}, {}
    for k in range(case["instances"]):
        o = g.uniform(-50, 50, 3) * [1, 1, 0.1]
        lat, lon, alt = ref.to_lla(*o)
        for j in range(case["cameras"]):
            names.append(f"{k}_{j}.jpg")
            gps.append({"latitude": float(lat), "longitude": float(lon), "altitude": float(alt), "dop": 5.0})
            inst.setdefault(f"i{k}", []).append((names[-1], f"rc{j}"))
        place[f"i{k}"] = o
    singles = [f"s{k}.jpg" for k in range(case["singles"])]
    write_dataset(root, g, names + singles, gps=gps + [{}] * len(singles), models=("c0",), extras=["camera_models"])
    touch(os.path.join(root, "reference_lla.json"), json.dumps({"latitude": 41.3, "longitude": -2.7, "altitude": 0.0}))
    d = dataset.DataSet(root)
    d.save_rig_cameras({f"rc{j}": pymap.RigCamera(pygeometry.Pose(A, -A @ c), f"rc{j}") for j, (A, c) in enumerate(cams)})
    d.save_rig_assignments(inst)
    r = create_rig._reconstruction_from_rigs_and_assignments(d)
    d.save_reconstruction(r, "rig_instances.json")
    r = d.load_reconstruction("rig_instances.json")
    check(len(r) == 1, "reconstructions")
    r = r[0]
    check(set(r.shots) == set(names), "images", sorted(r.shots))
    check(set(r.rig_instances.keys()) == set(inst), "instances", sorted(r.rig_instances.keys()), sorted(inst))
    for i, v in inst.items():
        check(set(r.rig_instances[i].keys()) == {n for n, _ in v}, "images of an instance", i)
        for n, c in v:
            A, o = cams[int(c[2:])]
            R = r.shots[n].pose.get_rotation_matrix()
            check(r.shots[n].rig_camera_id == c and rot_angle(R @ A.T) < 1e-6, "turn of", n)
            check(np.linalg.norm(r.shots[n].pose.get_origin() - place[i] - o) < 1e-3, "place of", n, r.shots[n].pose.get_origin(), place[i] + o)
    t.nontrivial(case["cameras"] > 1 and case["instances"] > 1)
