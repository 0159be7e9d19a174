"""C22: splitting a large dataset and merging its parts."""

import json
import logging
import math
import os

import numpy as np
import scenes
from gen import grid, rng, rodrigues, rot_angle, rotvec_of, seeds, ugrid
from harness import Check, Skip, check
from hypothesis import strategies as st
from opensfm import dataset, geo, pybundle, pygeometry, pymap, types
from opensfm.actions import align_submodels, create_submodels
from opensfm.large import metadataset, tools
from scipy.optimize._numdiff import approx_derivative

CHECK = Check("C22")
logging.getLogger("opensfm").setLevel(logging.ERROR)

REFS = [[41.3, -2.7], [-33.9, 18.4], [0.02, 10.0], [63.0, -20.0], [-1e-4, 1e-4], [37.7, -122.4], [35.0, 139.0]]


# ---------------------------------------------------------------- splitting

blob = st.tuples(ugrid(400.0), ugrid(400.0), st.integers(1, 9), st.sampled_from([0.0, 5.0, 20.0, 60.0]))
SPLIT = st.fixed_dictionaries({
    "seed": seeds,
    "ref": st.sampled_from(REFS),
    "blobs": st.lists(blob, min_size=1, max_size=5),
    "no_gps": st.sampled_from([0.0, 0.0, 0.2, 0.5]),
    "size": st.sampled_from([1, 2, 3, 5, 8, 13, 80]),
    "overlap": st.sampled_from([0.0, 5.0, 15.0, 30.0, 50.0, 120.0, 1000.0]),
    "groups": st.sampled_from([0, 0, 1, 2, 4]),
    "elsewhere": st.booleans(),
    "extras": st.lists(st.sampled_from(["camera_models.json", "features", "matches", "masks", "mask_list.txt", "segmentations", "reports/features", "reports/features.json", "reports/matches.json"]), unique=True, max_size=9),
    "again": st.one_of(st.none(), st.sampled_from([1, 2, 4, 80])),
    "template": st.sampled_from(["", "", "parts"]),
})


def touch(path, text="x"):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def write_dataset(root, case, cfg):
    g = rng(case["seed"])
    ref = geo.TopocentricConverter(case["ref"][0], case["ref"][1], 0.0)
    xy = np.concatenate([np.array([[x, y]]) + g.normal(0, 1, (n, 2)) * s for x, y, n, s in case["blobs"]])
    order = g.permutation(len(xy))
    xy = xy[order]
    names, located, files = [], {}, []
    without = g.random(len(xy)) < case["no_gps"]
    if without.all():
        without[0] = False
    for k in range(len(xy)):
        n = f"im{k:03d}.jpg"
        names.append(n)
        sub = ["photos", f"day{k % 2}"] if case["elsewhere"] else ["images"]
        files.append(os.path.join(*sub, n))
        touch(os.path.join(root, *sub, n), f"pixels of {n}")
        e = {"camera": "c", "width": 40, "height": 30, "capture_time": float(k), "gps": {}}
        if without[k]:
            e["gps"] = [{}, {"altitude": 3.0}, {"latitude": 1.0}][k % 3]
            if k % 4 == 1:
                del e["gps"]
        else:
            lat, lon, alt = ref.to_lla(xy[k, 0], xy[k, 1], 0.0)
            e["gps"] = {"latitude": float(lat), "longitude": float(lon), "altitude": float(g.uniform(0, 60)), "dop": 5.0}
            located[n] = (float(lat), float(lon))
        touch(os.path.join(root, "exif", n + ".exif"), json.dumps(e))
    if case["elsewhere"]:
        touch(os.path.join(root, "image_list.txt"), "\n".join(files) + "\n")
    write_config(root, cfg)
    for x in case["extras"]:
        p = os.path.join(root, x)
        if x == "masks":
            for n in names:
                touch(os.path.join(p, n + ".png"), "mask of " + n)
        elif x == "mask_list.txt":
            if "masks" in case["extras"]:
                touch(p, "".join(f"{n} masks/{n}.png\n" for n in names[::2]))
        elif x == "camera_models.json":
            touch(p, "{}")
        elif "." in x:
            touch(p, "{}")
        else:
            touch(os.path.join(p, names[0] + ".npz"), "data of " + x)
    groups = None
    if case["groups"]:
        label = g.choice(["a", "b", "zz", "10", "9"], 5, replace=False)[: case["groups"]]
        groups = {n: str(label[int(g.integers(case["groups"]))]) for n in names}
        order = g.permutation(len(names))
        touch(os.path.join(root, "image_groups.txt"), "".join(f"{names[k]} {groups[names[k]]}\n" for k in order))
    return names, located, dict(zip(names, files)), groups


def write_config(root, cfg):
    with open(os.path.join(root, "config.yaml"), "w") as f:
        json.dump(cfg, f)


def config_of(case, size):
    cfg = {"processes": 1, "submodel_size": size, "submodel_overlap": case["overlap"]}
    if case["template"]:
        cfg.update(submodels_relpath="parts", submodel_relpath_template="parts/p%03d", submodel_images_relpath_template="parts/p%03d/images")
    return cfg


def tree_of(root, skip):
    """Files and contents below a folder, links not followed."""
    out = {}
    for base, dirs, names in os.walk(root):
        dirs[:] = [d for d in dirs if os.path.join(base, d) not in skip]
        for n in names:
            p = os.path.join(base, n)
            with open(p, "rb") as f:
                out[os.path.relpath(p, root)] = f.read()
    return out


def ecef(lat, lon):
    return np.array(geo.ecef_from_lla(lat, lon, 0.0))


def verify_split(root, case, size, names, located, files, groups, t):
    cfg = config_of(case, size)
    top = os.path.join(root, cfg.get("submodels_relpath", "submodels"))
    template = cfg.get("submodel_relpath_template", "submodels/submodel_%04d")
    meta = metadataset.MetaDataSet(root)
    N = len(located)
    if groups:
        want = len({groups[n] for n in located})
    else:
        want = math.ceil(N / size)
    paths = [os.path.join(root, template % i) for i in range(want)]
    folders = sorted(os.path.join(top, x) for x in os.listdir(top) if os.path.isdir(os.path.join(top, x)))
    check(folders == sorted(paths), "one folder per submodel", want, [os.path.basename(f) for f in folders])
    check([os.path.abspath(p) for p in meta.get_submodel_paths()] == [os.path.abspath(p) for p in paths], "submodel paths")

    # clusters: a partition of the located images
    images, positions, labels, _ = meta.load_clusters()
    check(sorted(str(i) for i in images) == sorted(located), "clusters hold other images", sorted(map(str, images)))
    cluster = {str(i): int(l) for i, l in zip(images, labels)}
    check(set(cluster.values()) == set(range(want)), "clusters without images", sorted(set(cluster.values())), want)
    if groups:
        for a in located:
            for b in located:
                check((cluster[a] == cluster[b]) == (groups[a] == groups[b]), "clusters do not follow the groups", a, b)
        order = sorted({groups[n] for n in located})
        for n in located:
            check(cluster[n] == order.index(groups[n]), "order of the groups", n)

    # members: everything that is closer than the overlap to the cluster
    P = {n: ecef(*located[n]) for n in located}
    ambiguous = 0
    neighbours = 0
    for i, p in enumerate(paths):
        d = dataset.DataSet(p)
        got = d.images()
        check(len(got) == len(set(got)), "image repeated in a submodel", i)
        core = [n for n in located if cluster[n] == i]
        for n in names:
            if n not in located:
                check(n not in got, "image without a position in a submodel", n)
                continue
            dist = min(np.linalg.norm(P[n] - P[m]) for m in core)
            if cluster[n] == i:
                check(n in got, "image missing from its own submodel", n, i)
            elif abs(dist - case["overlap"]) < 3.0:
                ambiguous += 1
            else:
                inside = dist < case["overlap"]
                neighbours += inside
                check((n in got) == inside, "overlap of a submodel", n, i, float(dist), case["overlap"], n in got)
        # images and shared files
        for n in got:
            with d.open_image_file(n) as f:
                check(f.read() == f"pixels of {n}".encode(), "image file of a submodel", n)
            check(os.path.realpath(d.image_files[n]) == os.path.realpath(os.path.join(root, files[n])), "image link", n)
            e = d.load_exif(n)
            check(e["gps"]["latitude"] == located[n][0], "exif of a submodel", n)
        check(d.config["submodel_size"] == size and d.config["submodel_overlap"] == case["overlap"], "config of a submodel")
        check(d.reference_exists(), "no reference in a submodel")
        a, b = d.load_reference(), dataset.DataSet(root).load_reference()
        check((a.lat, a.lon, a.alt) == (b.lat, b.lon, b.alt), "reference of a submodel")
        for x in ["camera_models.json", "features", "matches", "masks", "mask_list.txt", "segmentations", "reports/features", "reports/features.json", "reports/matches.json"]:
            src, dst = os.path.join(root, x), os.path.join(p, x)
            check(os.path.lexists(dst) == os.path.exists(src), "shared file", x, os.path.lexists(dst), os.path.exists(src))
            if os.path.exists(src):
                check(os.path.exists(dst) and os.path.realpath(dst) == os.path.realpath(src), "shared file leads elsewhere", x, os.path.realpath(dst))
        if "masks" in case["extras"]:
            listed = set(names[::2]) if "mask_list.txt" in case["extras"] else set(names)
            for n in got:
                check((n in d.mask_files) == (n in listed), "mask of an image", n)
                if n in listed:
                    with open(d.mask_files[n]) as f:
                        check(f.read() == "mask of " + n, "mask file", n)

    # maps of the split
    for file, members in [("clusters.geojson", [(n, cluster[n]) for n in located]),
                          ("clusters_with_neighbors.geojson", [(n, i) for i, p in enumerate(paths) for n in dataset.DataSet(p).images()])]:
        with open(os.path.join(top, file)) as f:
            j = json.load(f)
        check(j["type"] == "FeatureCollection", "kind of geojson")
        got = sorted((f["properties"]["name"], f["properties"]["submodel"]) for f in j["features"])
        check(got == sorted(members), "submodels in " + file)
        for f in j["features"]:
            lon, lat = f["geometry"]["coordinates"]
            la, lo = located[f["properties"]["name"]]
            check(f["geometry"]["type"] == "Point" and abs(lat - la) < 1e-9 and abs(lon - lo) < 1e-9, "place in " + file, f)
    return want, neighbours


@CHECK.sub("split", SPLIT, quick=60, rule="at least two submodels, one of which takes images of another", shards=4)
def split(case, t):
    root = os.path.join(t.tmpdir(), "data")
    os.makedirs(root)
    sizes = [case["size"]] + ([case["again"]] if case["again"] else [])
    names, located, files, groups = write_dataset(root, case, config_of(case, sizes[0]))
    for r, size in enumerate(sizes):
        write_config(root, config_of(case, size))
        skip = [os.path.join(root, "submodels"), os.path.join(root, "parts")]
        before = tree_of(root, skip)
        create_submodels.run_dataset(dataset.DataSet(root))
        after = tree_of(root, skip)
        ref = after.pop("reference_lla.json")
        check(before.pop("reference_lla.json", ref) == ref, "reference changed")
        check(before == after, "the dataset itself changed", sorted(set(before) ^ set(after)))
        n, shared = verify_split(root, case, size, names, located, files, groups, t)
        if r:
            t.label("split again")
        if n > 1 and shared:
            t.nontrivial()
        t.label(f"{min(n, 5)} submodels")
    if groups:
        t.label("groups")


BLOBS = st.fixed_dictionaries({
    "seed": seeds,
    "ref": st.sampled_from(REFS),
    "size": st.integers(2, 9),
    "count": st.integers(1, 5),
    "step": st.sampled_from([1500.0, 4000.0]),
    "spread": st.sampled_from([3.0, 10.0, 40.0]),
})


@CHECK.sub("separate", BLOBS, quick=60, rule="at least two separate groups of images", shards=2)
def separate(case, t):
    """Groups of images far from one another become the submodels."""
    g = rng(case["seed"])
    root = os.path.join(t.tmpdir(), "data")
    ref = geo.TopocentricConverter(case["ref"][0], case["ref"][1], 0.0)
    names, home = [], {}
    order = g.permutation(case["count"] * case["size"])
    for k in order:
        b = int(k) % case["count"]
        a = 2 * math.pi * b / case["count"]
        x, y = np.array([math.cos(a), math.sin(a)]) * case["step"] * case["count"] / 3 + g.uniform(-1, 1, 2) * case["spread"]
        lat, lon, _ = ref.to_lla(x, y, 0.0)
        n = f"im{k:03d}.jpg"
        home[n] = b
        touch(os.path.join(root, "images", n))
        touch(os.path.join(root, "exif", n + ".exif"), json.dumps({"gps": {"latitude": float(lat), "longitude": float(lon)}}))
    write_config(root, {"processes": 1, "submodel_size": case["size"]})
    create_submodels.run_dataset(dataset.DataSet(root))
    got = sorted(sorted(dataset.DataSet(p).images()) for p in metadataset.MetaDataSet(root).get_submodel_paths())
    want = sorted(sorted(n for n in home if home[n] == b) for b in range(case["count"]))
    check(got == want, "separate groups of images", got, want)
    if case["count"] > 1:
        t.nontrivial()


# ---------------------------------------------------------------- the alignment problem

def inverse(s, r, tr, X):
    """World coordinates of a point of a reconstruction (scale, rotation vector, translation)."""
    return (np.asarray(X) - tr) / s @ rodrigues(r)


PROBLEM = st.fixed_dictionaries({
    "seed": seeds,
    "kind": st.sampled_from(["soft", "hard", "cameras", "points", "mixed"]),
    "recs": st.integers(1, 4),
    "shots": st.integers(4, 12),
    "noise": st.sampled_from([0.0, 0.0, 0.05, 0.5]),
    "turn": st.sampled_from([0.02, 0.1, 0.4]),
    "shift": st.sampled_from([0.1, 2.0, 8.0]),
    "scale": st.sampled_from([0.0, 0.1, 0.3]),
    "fixed": st.booleans(),
    "sd": st.sampled_from([0.5, 1.0, 5.0]),
})


def cauchy(s):
    return np.log1p(s)


def soft_l1(s):
    return 2 * (np.sqrt(1 + s) - 1)


class Problem:
    """The alignment problem with its cost written down again."""

    def __init__(self):
        self.ra = pybundle.ReconstructionAlignment()
        self.rec, self.shot = {}, {}
        self.const = set()
        self.terms = []

    def add_rec(self, n, p, const=False):
        self.ra.add_reconstruction(n, *map(float, p), const)
        self.rec[n] = np.array(p, float)
        if const:
            self.const.add(("r", n))

    def add_shot(self, n, p, const=False):
        self.ra.add_shot(n, *map(float, p), const)
        self.shot[n] = np.array(p, float)
        if const:
            self.const.add(("s", n))

    def relative(self, r, s, p, sm):
        c = pybundle.RARelativeMotionConstraint(r, s, *map(float, p))
        for i in range(6):
            for j in range(6):
                c.set_scale_matrix(i, j, float(sm[i, j]))
        self.ra.add_relative_motion_constraint(c)
        A, ta = rodrigues(p[:3]), np.array(p[3:])

        def f(R, S):
            q, u = R[r], S[s]
            e = rotvec_of(A @ rodrigues(q[:3]) @ rodrigues(u[:3]).T)
            c_in_rec = q[6] * rodrigues(q[:3]) @ (-rodrigues(u[:3]).T @ u[3:]) + q[3:6]
            return sm @ np.r_[e, c_in_rec - (-A.T @ ta)]

        self.terms.append((cauchy, f))

    def absolute(self, s, x, sd):
        self.ra.add_absolute_position_constraint(s, *map(float, x), sd)
        self.terms.append((lambda v: v, lambda R, S: (np.array(x) + rodrigues(S[s][:3]).T @ S[s][3:]) / sd))

    def relative_absolute(self, r, s, x, sd):
        self.ra.add_relative_absolute_position_constraint(r, s, *map(float, x), sd)

        def f(R, S):
            c = -rodrigues(S[s][:3]).T @ S[s][3:]
            return (np.array(x) - inverse(R[r][6], R[r][:3], R[r][3:6], c)) / sd

        self.terms.append((soft_l1, f))

    def camera(self, ra, sa, rb, sb, sdc, sdr):
        self.ra.add_common_camera_constraint(ra, sa, rb, sb, sdc, sdr)

        def f(R, S):
            c = [inverse(R[r][6], R[r][:3], R[r][3:6], -rodrigues(S[s][:3]).T @ S[s][3:]) for r, s in [(ra, sa), (rb, sb)]]
            A, B = (rodrigues(S[s][:3]) @ rodrigues(R[r][:3]) for r, s in [(ra, sa), (rb, sb)])
            return np.r_[rotvec_of(A @ B.T) / sdr, (c[0] - c[1]) / sdc]

        self.terms.append((cauchy, f))

    def point(self, ra, a, rb, b, sd):
        self.ra.add_common_point_constraint(ra, *map(float, a), rb, *map(float, b), sd)

        def f(R, S):
            x, y = (inverse(R[r][6], R[r][:3], R[r][3:6], p) for r, p in [(ra, a), (rb, b)])
            return (R[ra][6] + R[rb][6]) * (x - y) / sd

        self.terms.append((soft_l1, f))

    def solve(self):
        self.ra.run()
        R, S = {}, {}
        for n in self.rec:
            r = self.ra.get_reconstruction(n)
            R[n] = np.array([r.rx, r.ry, r.rz, r.tx, r.ty, r.tz, r.scale])
        for n in self.shot:
            s = self.ra.get_shot(n)
            S[n] = np.array([s.rx, s.ry, s.rz, s.tx, s.ty, s.tz])
        return R, S

    def cost(self, R, S):
        return 0.5 * sum(float(rho(float(np.sum(np.square(f(R, S)))))) for rho, f in self.terms)

    def improve(self, R, S):
        """The cost that one Gauss-Newton step from a solution promises: the same at an optimum, local or not."""
        keys = [("r", n) for n in R if ("r", n) not in self.const] + [("s", n) for n in S if ("s", n) not in self.const]
        x0 = np.concatenate([(R if k == "r" else S)[n] for k, n in keys]) if keys else np.zeros(0)

        def unpack(x):
            R2, S2, i = dict(R), dict(S), 0
            for k, n in keys:
                m = 7 if k == "r" else 6
                (R2 if k == "r" else S2)[n] = x[i : i + m]
                i += m
            return R2, S2

        def residuals(x):
            R2, S2 = unpack(x)
            out = []
            for rho, f in self.terms:
                r = f(R2, S2)
                s = float(r @ r)
                out.append(r * math.sqrt(rho(s) / s) if s > 1e-300 else r)
            return np.concatenate(out)

        if not len(x0):
            return self.cost(R, S)
        r = residuals(x0)
        J = approx_derivative(residuals, x0, method="3-point", f0=r)
        step = np.linalg.lstsq(J, -r, rcond=1e-9)[0]
        return 0.5 * float(np.sum((r + J @ step) ** 2))


def pose_of(R, o):
    return np.r_[rotvec_of(R), -R @ o]


@CHECK.sub("problem", PROBLEM, quick=60, rule="at least two reconstructions with unknown placement", shards=4)
def problem(case, t):
    g = rng(case["seed"])
    n = case["shots"]
    o = g.uniform(-10, 10, (n, 3))
    Rw = [rodrigues(g.uniform(-1, 1, 3) * 0.9) for _ in range(n)]
    X = g.uniform(-10, 10, (12, 3))
    P = Problem()
    truth = {}
    kind = case["kind"]
    for k in range(case["recs"]):
        r = g.uniform(-1, 1, 3) * case["turn"]
        tr = g.uniform(-1, 1, 3) * case["shift"]
        s = math.exp(g.uniform(-1, 1) * case["scale"])
        truth[f"r{k}"] = np.r_[r, tr, s]
    fixed = case["fixed"] or kind in ("cameras", "points")
    for k, (name, p) in enumerate(truth.items()):
        if fixed and k == 0:
            P.add_rec(name, p, True)
        else:
            P.add_rec(name, [0, 0, 0, 0, 0, 0, 1])
    members = {name: sorted(set(int(i) for i in g.choice(n, max(4, n * 2 // 3), replace=False))) for name in truth}

    def inside(name, i):
        """Pose of a shot in the coordinates of a reconstruction."""
        p = truth[name]
        A = rodrigues(p[:3])
        return Rw[i] @ A.T, p[6] * A @ o[i] + p[3:6] + (g.normal(0, case["noise"], 3) if case["noise"] else 0)

    soft = kind in ("soft", "mixed")
    hard = kind in ("hard", "mixed", "cameras")
    sd = case["sd"]
    if soft:
        done = set()
        for name in truth:
            for i in members[name]:
                R, c = inside(name, i)
                if i not in done:
                    done.add(i)
                    P.add_shot(f"s{i}", pose_of(R, c))
                    P.absolute(f"s{i}", o[i] + (g.normal(0, case["noise"], 3) if case["noise"] else 0), sd)
                sm = np.diag(1 / np.sqrt([1e-3, 1e-3, 1e-3, 1e-2, 1e-2, 1e-2]))
                if case["noise"]:
                    sm[3:, 3:] += np.tril(g.uniform(-2, 2, (3, 3)), -1)
                P.relative(name, f"s{i}", pose_of(R, c), sm)
    if hard:
        for name in truth:
            for i in members[name]:
                R, c = inside(name, i)
                P.add_shot(f"{name}s{i}", pose_of(R, c), True)
                if kind != "cameras":
                    P.relative_absolute(name, f"{name}s{i}", o[i] + (g.normal(0, case["noise"], 3) if case["noise"] else 0), sd)
        L = list(truth)
        for a in range(len(L)):
            for b in range(a + 1, len(L)):
                for i in set(members[L[a]]) & set(members[L[b]]):
                    P.camera(L[a], f"{L[a]}s{i}", L[b], f"{L[b]}s{i}", 1.0, 0.1)
    if kind in ("points", "mixed"):
        L = list(truth)
        for a, b in zip(L, L[1:]):
            for x in X:
                p, q = truth[a], truth[b]
                e = g.normal(0, case["noise"], 3) if case["noise"] else 0
                P.point(a, p[6] * rodrigues(p[:3]) @ x + p[3:6], b, q[6] * rodrigues(q[:3]) @ x + q[3:6] + e, 0.1)
    if not P.terms:
        raise Skip
    R, S = P.solve()
    for n_, p in truth.items():
        if ("r", n_) in P.const:
            check(np.array_equal(R[n_], p), "fixed reconstruction moved", n_)
    for n_, p in P.shot.items():
        if ("s", n_) in P.const:
            check(np.array_equal(S[n_], p), "fixed shot moved", n_)
    if case["noise"] == 0:
        for k, (name, p) in enumerate(truth.items()):
            if kind == "cameras":
                shared = set()
                linked = {"r0"}
                for _ in truth:
                    for a in truth:
                        if a not in linked and any(len(set(members[a]) & set(members[b])) >= 3 for b in linked):
                            linked.add(a)
                if name not in linked:
                    continue
            dr = rot_angle(rodrigues(R[name][:3]) @ rodrigues(p[:3]).T)
            check(dr < 1e-3, "turn of a reconstruction", name, dr)
            check(abs(R[name][6] / p[6] - 1) < 1e-3, "scale of a reconstruction", name, R[name][6], p[6])
            check(np.linalg.norm(R[name][3:6] - p[3:6]) < 2e-2, "shift of a reconstruction", name, R[name][3:6], p[3:6])
        if soft:
            for n_ in S:
                if ("s", n_) not in P.const:
                    i = int(n_[1:])
                    A = rodrigues(S[n_][:3])
                    check(np.linalg.norm(-A.T @ S[n_][3:] - o[i]) < 2e-2, "place of a shot", n_)
                    check(rot_angle(A @ Rw[i].T) < 1e-3, "turn of a shot", n_)
    else:
        c = P.cost(R, S)
        better = P.improve(R, S)
        check(better > c * (1 - 2e-2) - 1e-6, "not an optimum", c, better)
        t.label("noisy")
    t.label(kind)
    if len(truth) > 1:
        t.nontrivial()


# ---------------------------------------------------------------- aligning the parts of a dataset

ALIGN = st.fixed_dictionaries({
    "seed": seeds,
    "n": st.integers(9, 20),
    "camera": st.sampled_from(["perspective", "brown", "fisheye"]),
    "size": st.sampled_from([5, 6, 8]),
    "overlap": st.sampled_from([14.0, 20.0, 30.0]),
    "turn": st.sampled_from([0.0, 0.01, 0.05, 0.15]),
    "shift": st.sampled_from([0.1, 1.0, 6.0]),
    "scale": st.sampled_from([0.0, 0.02, 0.1]),
    "gps_noise": st.sampled_from([0.0, 0.0, 0.5]),
    "dop": st.sampled_from([1.0, 5.0, 15.0]),
    "extra": st.booleans(),  # a second reconstruction in a submodel
    "lost": st.booleans(),  # a submodel without reconstruction
    "prefix": st.booleans(),  # names of tracks differ between submodels
    "mode": st.sampled_from(["action", "action", "soft", "hard", "points"]),
})


def part(s, names, points, sim, prefix):
    """A reconstruction of some images and points of a scene, in displaced coordinates."""
    sc, A, b = sim
    rec = types.Reconstruction()
    for c in s.cameras.values():
        rec.add_camera(c)
    for k, n in enumerate(s.names):
        if n not in names:
            continue
        R, c = s.R[k] @ A.T, sc * A @ s.o[k] + b
        sh = rec.create_shot(n, s.camera_of[k], pygeometry.Pose(R, -R @ c))
        sh.metadata.gps_position.value = s.gps[k]
        sh.metadata.gps_accuracy.value = s.dop
    for i in points:
        rec.create_point(f"{prefix}{i}", sc * A @ s.X[i] + b)
    return rec


@CHECK.sub("align", ALIGN, quick=40, rule="at least two displaced submodels that share images", shards=6)
def align(case, t):
    g = rng(case["seed"])
    root = os.path.join(t.tmpdir(), "data")
    s = scenes.make(g, "aerial", case["n"], points=150, camera=case["camera"], gps_noise=case["gps_noise"])
    s.dop = case["dop"]
    scenes.write(s, root, {"submodel_size": case["size"], "submodel_overlap": case["overlap"]}, dop=s.dop)
    create_submodels.run_dataset(dataset.DataSet(root))
    meta = metadataset.MetaDataSet(root)
    paths = meta.get_submodel_paths()
    originals, members = {}, {}
    for k, p in enumerate(paths):
        d = dataset.DataSet(p)
        names = d.images()
        if case["lost"] and k == len(paths) - 1 and k > 0:
            continue
        prefix = f"{k}_" if case["prefix"] else ""
        tm = scenes.tracks_of(s, set(names), prefix)
        d.save_tracks_manager(tm)
        groups = [names]
        if case["extra"] and k == 0 and len(names) >= 8:
            groups = [names[: len(names) // 2], names[len(names) // 2 :]]
        recs = []
        for j, G in enumerate(groups):
            C = np.array([s.o[s.names.index(n)] for n in G])
            if len(G) < 4 or np.linalg.svd(C - C.mean(0))[1][1] < 12.0:
                raise Skip
            sim = (math.exp(g.uniform(-1, 1) * case["scale"]), rodrigues(g.uniform(-1, 1, 3) * case["turn"]), g.uniform(-1, 1, 3) * case["shift"])
            # the displacement is about the middle of the submodel
            m = C.mean(0)
            sim = (sim[0], sim[1], sim[2] + m - sim[0] * sim[1] @ m)
            count = {}
            for (n, i) in s.observations:
                if n in G:
                    count[i] = count.get(i, 0) + 1
            pts = [i for i, c in count.items() if c >= 2]
            recs.append(part(s, set(G), pts, sim, prefix))
            members[p, j] = (set(G), pts, prefix)
        d.save_reconstruction(recs)
        with open(os.path.join(p, "reconstruction.json"), "rb") as f:
            originals[p] = f.read()
    if hasattr(tools.load_reconstruction, "cache_clear"):
        tools.load_reconstruction.cache_clear()
    if case["mode"] == "action":
        align_submodels.run_dataset(dataset.DataSet(root))
    else:
        shots = tools.load_reconstruction_shots(meta)
        check({(k.submodel_path, k.idx) for k in shots} == set(members), "reconstructions of the submodels")
        tr = tools.align_reconstructions(shots, tools.partial_reconstruction_name, case["mode"] == "points", "hard_camera_constraint" if case["mode"] == "hard" else "soft_camera_constraint")
        tools.apply_transformations(tr)
    exact = case["gps_noise"] == 0
    places = {}
    for p in paths:
        aligned = os.path.join(p, "reconstruction.aligned.json")
        check(os.path.exists(aligned) == (p in originals), "aligned file of a submodel", p)
        if p not in originals:
            continue
        with open(os.path.join(p, "reconstruction.json"), "rb") as f:
            check(f.read() == originals[p], "reconstruction of a submodel changed", p)
        recs = dataset.DataSet(p).load_reconstruction("reconstruction.aligned.json")
        check(len(recs) == sum(1 for q, _ in members if q == p), "count of reconstructions", len(recs))
        for j, r in enumerate(recs):
            names, pts, prefix = members[p, j]
            check(set(r.shots) == names, "shots of a reconstruction")
            check(set(r.points) == {f"{prefix}{i}" for i in pts}, "points of a reconstruction")
            O, T = [], []
            for n in sorted(names):
                k = s.names.index(n)
                sh = r.shots[n]
                c, R = sh.pose.get_origin(), sh.pose.get_rotation_matrix()
                O.append(c)
                T.append(s.o[k])
                places.setdefault(n, []).append((c, R))
                if exact:
                    check(np.linalg.norm(c - s.o[k]) < 0.02, "place of an aligned image", n, c, s.o[k])
                    check(rot_angle(R @ s.R[k].T) < 1e-3, "turn of an aligned image", n)
                else:
                    check(np.linalg.norm(c - s.o[k]) < 6 * case["gps_noise"], "place of an aligned image", n, c, s.o[k])
            # the reconstruction moved as a whole
            sc, A, b = scenes.similarity(np.array(T), np.array(O))
            for i in pts:
                x = r.points[f"{prefix}{i}"].coordinates
                want = sc * A @ s.X[i] + b
                check(np.linalg.norm(x - want) < 1e-3 * (1 + np.linalg.norm(want - b) * 0.1), "points left behind", i, x, want)
            for n in names:
                k = s.names.index(n)
                check(rot_angle(r.shots[n].pose.get_rotation_matrix() @ A @ s.R[k].T) < 1e-4, "turned apart", n)
                check(np.linalg.norm(r.shots[n].pose.get_origin() - (sc * A @ s.o[k] + b)) < 1e-3, "moved apart", n)
    shared = 0
    for n, L in places.items():
        for (c, R), (e, Q) in zip(L, L[1:]):
            shared += 1
            if case["mode"] != "hard" or exact:
                check(np.linalg.norm(c - e) < (0.02 if exact else 0.35), "shared image in two places", n, float(np.linalg.norm(c - e)))
                check(rot_angle(R @ Q.T) < (1e-3 if exact else 0.02), "shared image turned two ways", n)
    t.label(case["mode"])
    if shared and len(members) > 1 and (case["turn"] or case["shift"] > 0.5 or case["scale"]):
        t.nontrivial()
