"""C07: feature matching."""

import gzip
import json
import math
import os
import pickle

import cv2
import numpy as np
from gen import grid, rng, rodrigues, rot_angle, seeds, st, ugrid
from harness import Check, Skip, check
from opensfm import config as osfm_config
from opensfm import dataset, feature_loader, features, matching, pyfeatures, pygeometry

CHECK = Check("C07")
CHECK.assumptions = [
    "matches whose ratio test is decided by a relative margin below 1e-5 are not judged",
    "approximate nearest neighbours are asked to be exact only when every point is checked",
]


# -- descriptors ----------------------------------------------------------

def descriptors(g, n1, n2, dim, kind, spread):
    """Descriptors of two images; the second repeats some of the first."""
    if kind == "binary":
        d1 = g.integers(0, 256, (n1, dim)).astype(np.uint8)
        d2 = g.integers(0, 256, (n2, dim)).astype(np.uint8)
    else:
        d1 = g.integers(0, spread, (n1, dim)).astype(np.float32)
        d2 = g.integers(0, spread, (n2, dim)).astype(np.float32)
    k = int(g.integers(0, min(n1, n2) + 1))
    src, dst = g.permutation(n1)[:k], g.permutation(n2)[:k]
    d2[dst] = d1[src]
    flip = g.random((k, dim)) < 0.15
    if kind == "binary":
        d2[dst] = np.where(flip, d2[dst] ^ np.uint8(1), d2[dst])
    else:
        d2[dst] = np.where(flip, d2[dst] + 1, d2[dst])
    return d1, d2


def distances(a, b):
    if a.dtype == np.uint8:
        x = np.unpackbits(a[:, None, :] ^ b[None, :, :], axis=2)
        return x.sum(axis=2).astype(float)
    return np.linalg.norm(a[:, None, :].astype(float) - b[None, :, :], axis=2)


def ratio_matches(D, ratio, allowed=None):
    """(surely matched pairs, possibly matched pairs) from rows to columns."""
    sure, maybe = set(), set()
    for i, row in enumerate(D):
        cand = np.flatnonzero(allowed[i]) if allowed is not None else np.arange(len(row))
        if len(cand) < 2:
            continue
        order = cand[np.argsort(row[cand], kind="stable")]
        d0, d1 = row[order[0]], row[order[1]]
        if abs(d0 - ratio * d1) <= 1e-5 * max(d0, d1):
            if d0 or d1:
                # ties of the nearest ones cannot pass a ratio below one
                maybe |= {(i, int(j)) for j in cand if row[j] <= d0 * (1 + 1e-6)}
        elif d0 < ratio * d1:
            sure.add((i, int(order[0])))
    return sure, maybe | sure


def transposed(s):
    return {(b, a) for a, b in s}


def as_pairs(m):
    return [(int(a), int(b)) for a, b in m]


def judge(got, sure, maybe):
    got = as_pairs(got)
    check(len(set(got)) == len(got), "a match is repeated", got)
    got = set(got)
    check(sure <= got, "missing matches", sorted(sure - got), "of", sorted(sure))
    check(got <= maybe, "wrong matches", sorted(got - maybe), "expected", sorted(maybe))


ratios = st.sampled_from([0.5, 0.7, 0.8, 0.9, 0.97, 1.0])


def epipolar_errors(b1, b2, R, tr):
    """Mean angle of each ray to the plane spanned by the baseline and the other ray."""
    o = -R.T @ tr
    w2 = b2 @ R
    n1 = np.cross(o, b1)
    n2 = np.cross(o, w2)
    n1 /= np.linalg.norm(n1, axis=1)[:, None]
    n2 /= np.linalg.norm(n2, axis=1)[:, None]
    return np.arcsin(np.clip((np.abs(n1 @ w2.T) + np.abs(b1 @ n2.T)) / 2, -1, 1))


@CHECK.sub(
    "brute_force",
    st.fixed_dictionaries({
        "seed": seeds, "n1": st.integers(1, 25), "n2": st.integers(1, 25), "dim": st.sampled_from([1, 4, 16, 61]),
        "kind": st.sampled_from(["float", "binary"]), "spread": st.sampled_from([4, 30, 250]), "ratio": ratios,
        "mask": st.sampled_from([None, 0.1, 0.5, 0.9, "rows"]),
    }), quick=500, rule="some pair passes the ratio test and some does not",
)
def brute_force(c, t):
    g = rng(c["seed"])
    d1, d2 = descriptors(g, c["n1"], c["n2"], c["dim"], c["kind"], c["spread"])
    mask = None
    if c["mask"] == "rows":
        mask = np.ones((c["n1"], c["n2"]), bool)
        mask[g.random(c["n1"]) < 0.5] = False
    elif c["mask"]:
        mask = g.random((c["n1"], c["n2"])) < c["mask"]
    cfg = {"lowes_ratio": c["ratio"]}
    D = distances(d1, d2)
    s12, m12 = ratio_matches(D, c["ratio"], mask)
    s21, m21 = ratio_matches(D.T, c["ratio"], mask.T if mask is not None else None)
    args = (mask,) if mask is not None else ()
    judge(matching.match_brute_force(d1, d2, cfg, *args), s12, m12)
    judge(matching.match_brute_force_symmetric(d1, d2, cfg, *args), s12 & transposed(s21), m12 & transposed(m21))
    t.nontrivial(s12 and len(m12) < c["n1"])
    t.label(c["kind"], "mask" if mask is not None else "all")


def word_matches(d1, w1, d2, w2, ratio, checks):
    """Reference: words of a feature are visited in order until enough features were compared."""
    sure, maybe = set(), set()
    D = distances(d1, d2)
    for i in range(len(d1)):
        seen = []
        for w in w1[i]:
            seen += [j for j in range(len(d2)) if w2[j][0] == w]
            if len(seen) >= checks:
                break
        if not seen:
            continue
        ds = sorted((D[i, j], k, j) for k, j in enumerate(seen))
        d0 = ds[0][0]
        d1_ = ds[1][0] if len(ds) > 1 else math.inf
        if d1_ < math.inf and abs(d0 - ratio * d1_) <= 1e-5 * max(d0, d1_):
            maybe |= {(i, j) for d, _, j in ds if d <= d0 * (1 + 1e-6)} if d0 or d1_ else set()
        elif d0 < ratio * d1_:
            sure.add((i, ds[0][2]))
    return sure, maybe | sure


@CHECK.sub(
    "words",
    st.fixed_dictionaries({
        "seed": seeds, "n1": st.integers(1, 25), "n2": st.integers(1, 25), "dim": st.sampled_from([2, 8]),
        "vocabulary": st.sampled_from([1, 3, 8, 40]), "per": st.integers(1, 6), "checks": st.sampled_from([1, 2, 5, 20]),
        "ratio": ratios, "spread": st.sampled_from([4, 30, 250]),
    }), quick=500, rule="some pair passes the ratio test",
)
def words(c, t):
    g = rng(c["seed"])
    d1, d2 = descriptors(g, c["n1"], c["n2"], c["dim"], "float", c["spread"])
    per = min(c["per"], c["vocabulary"])

    def assign(d):
        # the closest words of random centers, as a vocabulary does
        centers = rng(c["seed"] + 1).integers(0, c["spread"], (c["vocabulary"], c["dim"])).astype(float)
        return np.argsort(distances(d, centers), axis=1, kind="stable")[:, :per].astype(np.int32)

    w1, w2 = assign(d1), assign(d2)
    cfg = {"lowes_ratio": c["ratio"], "bow_num_checks": c["checks"]}
    s12, m12 = word_matches(d1, w1, d2, w2, c["ratio"], c["checks"])
    s21, m21 = word_matches(d2, w2, d1, w1, c["ratio"], c["checks"])
    judge(matching.match_words(d1, w1, d2, w2, cfg), s12, m12)
    judge(matching.match_words_symmetric(d1, w1, d2, w2, cfg), s12 & transposed(s21), m12 & transposed(m21))
    t.nontrivial(s12 and c["vocabulary"] > 1)


@CHECK.sub(
    "flann",
    st.fixed_dictionaries({
        "seed": seeds, "n1": st.integers(3, 40), "n2": st.integers(3, 40), "dim": st.sampled_from([4, 16]),
        "algorithm": st.sampled_from(["KDTREE", "KMEANS"]), "ratio": ratios, "checks": st.sampled_from([1, 8, 1000]),
    }), quick=150, rule="some pair passes the ratio test",
)
def flann(c, t):
    g = rng(c["seed"])
    d1, d2 = descriptors(g, c["n1"], c["n2"], c["dim"], "float", 250)
    cfg = osfm_config.default_config()
    cfg.update({"lowes_ratio": c["ratio"], "flann_algorithm": c["algorithm"], "flann_checks": c["checks"],
                "flann_branching": 4, "flann_tree": 4})
    i1, i2 = features.build_flann_index(d1, cfg), features.build_flann_index(d2, cfg)
    one = set(as_pairs(matching.match_flann(i1, d2, cfg)))
    two = set(as_pairs(matching.match_flann(i2, d1, cfg)))
    both = matching.match_flann_symmetric(d1, i1, d2, i2, cfg)
    judge(both, one & transposed(two), one & transposed(two))
    D = distances(d1, d2)
    if c["checks"] == 1000:
        # one match per feature of the second image, to its nearest in the first
        s, m = ratio_matches(D.T, c["ratio"])
        judge(one, transposed(s), transposed(m))
        t.nontrivial(s)
    for i, j in one:
        # whatever was visited: the match is at least as close as another feature
        check(D[i, j] <= np.sort(D[:, j])[-2] + 1e-6, "a matched feature is the farthest one")


# -- filters --------------------------------------------------------------

class Meta:
    """Only what the filters ask of a dataset."""

    def __init__(self, exifs):
        self.exifs = exifs

    def load_exif(self, im):
        return self.exifs[im]


def camera_of(kind):
    if kind == "spherical":
        return pygeometry.Camera.create_spherical()
    if kind == "fisheye":
        return pygeometry.Camera.create_fisheye(0.5, -0.01, 0.0)
    return pygeometry.Camera.create_perspective(0.8, -0.1, 0.01)


near = st.sampled_from([0.0, 1e-6, 0.0005, 0.00099, 0.00101, 0.002, 0.3])
height_values = st.sampled_from([-0.256, -0.254, -0.126, -0.124, 0.0, 0.124, 0.126, 0.262, 0.264, 0.4, -0.4])
makes = st.sampled_from([("Canon", "Canon"), ("VTrans_Camera", "VTrans_Camera"), ("VTrans_Camera", "other"),
                         ("BlackVue", "DR900"), ("blackvue", "x"), ("", "")])


@CHECK.sub(
    "filters",
    st.fixed_dictionaries({
        "points": st.lists(st.tuples(height_values, near, grid(0, 2 * math.pi, 16), height_values, st.booleans()),
                           min_size=0, max_size=14),
        "static": st.integers(0, 20), "seed": seeds,
        "cam1": st.sampled_from(["perspective", "fisheye", "spherical"]),
        "cam2": st.sampled_from(["perspective", "fisheye", "spherical"]), "meta1": makes, "meta2": makes,
    }), quick=1500, rule="some match is removed and some is kept",
)
def filters(c, t):
    g = rng(c["seed"])
    p1, p2 = [], []
    for y1, d, a, y2, moved in c["points"]:
        x = g.uniform(-0.4, 0.4)
        p1.append([x, y1, 0.01])
        p2.append([x + 0.05, y2, 0.02] if moved else [x + d * math.cos(a), y1 + d * math.sin(a), 0.02])
    for _ in range(c["static"]):
        x, y = g.uniform(-0.3, 0.3), g.uniform(-0.1, 0.1)
        p1.append([x, y, 0.01])
        p2.append([x, y, 0.01])
    n = len(p1)
    p1, p2 = np.array(p1).reshape(-1, 3), np.array(p2).reshape(-1, 3)
    perm = g.permutation(n)
    q2 = np.zeros_like(p2)
    q2[perm] = p2
    matches = [(i, int(perm[i])) for i in g.permutation(n).tolist()]
    data = Meta({"a": {"make": c["meta1"][0], "model": c["meta1"][1]}, "b": {"make": c["meta2"][0], "model": c["meta2"][1]}})
    got = matching.apply_adhoc_filters(data, list(matches), "a", camera_of(c["cam1"]), p1, "b", camera_of(c["cam2"]), q2)
    got = as_pairs(got)

    moving = [m for m in matches if np.hypot(*(p1[m[0]] - q2[m[1]])[:2]) >= 0.001]
    want = matches if len(matches) and len(matches) - len(moving) > 0.85 * len(matches) else moving
    if len(matches) and abs((len(matches) - len(moving)) / len(matches) - 0.85) < 1e-9:
        raise Skip
    for k, p in ((0, p1), (1, q2)):
        kind, (make, model) = (c["cam1"], c["meta1"]) if k == 0 else (c["cam2"], c["meta2"])
        if kind == "spherical":
            want = [m for m in want if abs(p[m[k]][1]) < 0.125]
        if make == model == "VTrans_Camera":
            want = [m for m in want if p[m[k]][1] > -0.255]
        if make.lower() == "blackvue":
            want = [m for m in want if p[m[k]][1] < 0.263]
    check(sorted(got) == sorted(want), "filtered", got, "expected", want)
    t.nontrivial(want and len(want) < len(matches))
    t.label("static kept" if len(moving) < len(matches) and set(want) - set(moving) else "", c["cam1"])


# -- whole images ---------------------------------------------------------

def scene(g, n, planar=False):
    X = np.c_[g.uniform(-2, 2, (n, 2)), g.uniform(4, 9, n)]
    if planar:
        X[:, 2] = 6 + 0.3 * X[:, 0]
    R = rodrigues(g.normal(size=3) * 0.12)
    c = g.normal(size=3)
    c = c / np.linalg.norm(c) * g.uniform(0.6, 1.2)
    return X, R, -R @ c


def write_image(path, a):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    check(cv2.imwrite(path, a))


def make_dataset(root, cfg, images, exifs, cameras):
    os.makedirs(os.path.join(root, "images"))
    for im in images:
        open(os.path.join(root, "images", im), "wb").close()
    with open(os.path.join(root, "config.yaml"), "w") as f:
        json.dump(cfg, f)
    data = dataset.DataSet(root)
    for im in images:
        data.save_exif(im, exifs[im])
    data.save_camera_models(cameras)
    return data


class Pair:
    """Two images of a scene with descriptors, masks and known true matches."""

    def __init__(self, c, root):
        g = rng(c["seed"])
        n, extra = c["n"], c["extra"]
        cam = camera_of(c["camera"]) if c["camera"] != "plain" else pygeometry.Camera.create_perspective(0.8, 0.0, 0.0)
        cam2 = pygeometry.Camera.create_fisheye(0.55, 0.02, 0.0) if c["camera2"] else cam
        cam.id, cam.width, cam.height = "cam", 640, 480
        if c["camera2"]:
            cam2.id, cam2.width, cam2.height = "cam2", 640, 480
        X, self.R, self.t = scene(g, n)
        pts = [cam.project_many(X), cam2.project_many(X @ self.R.T + self.t)]
        d1 = g.integers(0, 200, (n, 32)).astype(np.float32)
        d2 = np.clip(d1 + g.integers(-6, 7, d1.shape), 0, 255).astype(np.float32)
        # wrong correspondences: same descriptors, points moved elsewhere
        wrong = np.flatnonzero(g.random(n) < c["wrong"])
        pts[1][wrong] = g.uniform(-0.4, 0.4, (len(wrong), 2))
        self.true = np.ones(n, bool)
        self.true[wrong] = False
        self.maps, self.points, self.desc, self.labels, self.inside = [], [], [], [], []
        inside = np.all([(abs(p[:, 0]) < 0.499) & (abs(p[:, 1]) < 0.374) for p in pts], axis=0)
        keep = np.flatnonzero(inside)
        if len(keep) < 20:
            raise Skip
        h, w = 480, 640
        self.names = ["b.jpg", "a.jpg"] if c["swap"] else ["a.jpg", "b.jpg"]
        cfg = {
            "matcher_type": c["matcher"], "symmetric_matching": c["symmetric"], "feature_type": "HAHOG",
            "robust_matching_min_match": c["min_match"], "processes": 1, "lowes_ratio": 0.8, "bow_num_checks": 20,
            "matching_use_segmentation": c["augment"], "features_bake_segmentation": c["bake"],
            "segmentation_ignore_values": [3, 7] if c["ignore"] else [], "robust_matching_calib_threshold": 0.004,
            "matching_use_filters": False, "flann_checks": 200,
        }
        if not c["ignore"]:
            del cfg["segmentation_ignore_values"]
        exif = {"camera": "cam", "width": w, "height": h, "orientation": 1, "make": "", "model": "", "gps": {}, "capture_time": 0}
        self.data = make_dataset(root, cfg, self.names, {im: dict(exif, camera=x.id) for im, x in zip(self.names, (cam, cam2))}, {x.id: x for x in (cam, cam2)})
        for k in (0, 1):
            im = self.names[k]
            P = np.r_[pts[k][keep], np.c_[g.uniform(-0.49, 0.49, extra), g.uniform(-0.37, 0.37, extra)]]
            D = np.r_[(d1, d2)[k][keep], g.integers(0, 200, (extra, 32)).astype(np.float32)]
            perm = g.permutation(len(P))
            P, D = P[perm].astype(np.float32), D[perm]
            where = np.empty(len(P), int)
            where[perm] = np.arange(len(P))
            m = np.full(max(keep) + 1, -1)
            m[keep] = where[: len(keep)]
            px = np.c_[(P[:, 0] * 640 + 320), (P[:, 1] * 640 + 240)]
            valid = np.ones(len(P), bool)
            # segmentation in blocks of 40 pixels, mask at half the resolution
            seg = None
            if c["segmentation"]:
                seg = g.choice([0, 1, 2, 3, 7], (12, 16), p=[0.4, 0.2, 0.2, 0.1, 0.1]).astype(np.uint8)
            mask = None
            if c["mask"]:
                mask = np.where(g.random((12, 16)) < 0.8, 255, 0).astype(np.uint8)
            cell = (px[:, 1] // 40).astype(int), (px[:, 0] // 40).astype(int)
            labels = seg[cell] if seg is not None else None
            if labels is not None and c["ignore"]:
                valid &= ~np.isin(labels, [3, 7])
            if mask is not None:
                valid &= mask[cell] > 0
            if seg is not None:
                write_image(os.path.join(root, "segmentations", im + ".png"), np.kron(seg, np.ones((40, 40), np.uint8)))
            if mask is not None:
                write_image(os.path.join(root, "masks", im + ".png"), np.kron(mask, np.ones((20, 20), np.uint8)))
            sem = features.SemanticData(labels, None, []) if c["bake"] and labels is not None else None
            self.data.load_mask_list()
            self.data.save_features(im, features.FeaturesData(
                np.c_[P, np.full(len(P), 0.004), np.zeros(len(P))], D, np.zeros((len(P), 3)), sem))
            self.maps.append(m)
            self.points.append(P.astype(float))
            self.desc.append(D)
            self.labels.append(labels if sem is not None else None)
            self.inside.append(valid)
        if c["matcher"] == "WORDS":
            centers = g.integers(0, 200, (6, 32)).astype(float)
            self.words = [np.argsort(distances(d, centers), axis=1, kind="stable")[:, :3].astype(np.int32) for d in self.desc]
            for k in (0, 1):
                self.data.save_words(self.names[k], self.words[k])
        self.cam, self.cam2, self.cfg = cam, cam2, cfg
        self.keep = keep

    def expected(self, c):
        """The descriptor matches in indices of all features, by the reference models."""
        i1, i2 = (np.flatnonzero(v) for v in self.inside)
        d1, d2 = self.desc[0][i1], self.desc[1][i2]
        if c["augment"] and self.labels[0] is not None and self.labels[1] is not None:
            d1 = np.c_[d1, 35.0 * self.labels[0][i1]]
            d2 = np.c_[d2, 35.0 * self.labels[1][i2]]
        if len(d1) < 2 or len(d2) < 2:
            return set(), set()
        if c["matcher"] == "WORDS":
            w1, w2 = self.words[0][i1], self.words[1][i2]
            a, b = word_matches(d1, w1, d2, w2, 0.8, 20), word_matches(d2, w2, d1, w1, 0.8, 20)
        else:
            D = distances(d1, d2)
            a, b = ratio_matches(D, 0.8), ratio_matches(D.T, 0.8)
        b = tuple(transposed(x) for x in b)
        if c["symmetric"]:
            a = a[0] & b[0], a[1] & b[1]
        elif c["matcher"] == "FLANN":
            a = b
        return tuple({(int(i1[i]), int(i2[j])) for i, j in x} for x in a)


pairs = st.fixed_dictionaries({
    "seed": seeds, "n": st.sampled_from([90, 30, 60, 120]), "extra": st.integers(0, 15), "wrong": st.sampled_from([0.0, 0.1, 0.25]),
    "camera": st.sampled_from(["perspective", "perspective", "fisheye", "plain"]), "swap": st.booleans(), "camera2": st.booleans(),
    "matcher": st.sampled_from(["FLANN", "WORDS", "BRUTEFORCE", "bruteforce"]), "symmetric": st.booleans(),
    "segmentation": st.booleans(), "mask": st.booleans(), "ignore": st.booleans(), "bake": st.booleans(),
    "augment": st.booleans(), "min_match": st.sampled_from([20, 5, 60]), "guided": st.sampled_from([False, False, True]),
})


@CHECK.sub("image_pairs", pairs, quick=700, rule="features are masked out and matches remain")
def image_pairs(c, t):
    p = Pair(c, t.tmpdir())
    data, cam, cam2 = p.data, p.cam, p.cam2
    a, b = p.names
    feature_loader.instance.clear_cache()
    try:
        if c["augment"] and (p.labels[0] is None or p.labels[1] is None):
            c = {**c, "augment": False}
        sure, maybe = p.expected(c)
        for k in (0, 1):
            m = feature_loader.instance.load_mask(data, p.names[k])
            check(m.dtype == bool and (m == p.inside[k]).all(), "mask of the features of", p.names[k])
        got = matching.match_descriptors(a, b, cam, cam2, data, {})
        check(got.dtype.kind == "i" and (got.ndim == 2 or len(got) == 0))
        judge(got, sure, maybe)
        again = matching.match_descriptors(a, b, cam, cam2, data, {})
        check(set(as_pairs(got)) == set(as_pairs(again)))

        # the robust matches are the descriptor matches that agree with the motion
        pose = None
        if c["guided"]:
            pose = pygeometry.Pose(p.R, p.t)
        full = matching.match(a, b, cam, cam2, data, {}, pose)
        pairs_of = {(int(p.maps[0][i]), int(p.maps[1][i])): bool(p.true[i]) for i in p.keep}
        full = as_pairs(full)
        check(len(full) == 0 or len(full) >= c["min_match"], "fewer matches than the minimum", len(full))
        check(len(set(full)) == len(full), "a match is repeated")
        inside = {(i, j) for i in np.flatnonzero(p.inside[0]) for j in np.flatnonzero(p.inside[1])}
        check(set(full) <= inside, "masked features are matched")
        if not c["guided"]:
            check(set(full) <= maybe, "matches beyond those of the descriptors", sorted(set(full) - maybe))
        good = [m for m in sure if pairs_of.get(m)]
        bad = [m for m in sure if not pairs_of.get(m)]
        if c["guided"]:
            t.label("guided")
            epi = [m for m in full if not pairs_of.get(m)]
            check(len(epi) <= 3 + 0.2 * len(full), "guided matches off the epipolar lines", len(epi), "of", len(full))
            # those that pass the ratio test among the candidates near their epipolar lines
            i1, i2 = (np.flatnonzero(v) for v in p.inside)
            e = epipolar_errors(cam.pixel_bearing_many(p.points[0][i1]), cam2.pixel_bearing_many(p.points[1][i2]), p.R, p.t)
            D = distances(p.desc[0][i1], p.desc[1][i2])
            s1, _ = ratio_matches(D, 0.8, e < 0.0055)
            s2, _ = ratio_matches(D.T, 0.8, (e < 0.0055).T)
            near = {(int(i1[i]), int(i2[j])) for i, j in s1 & transposed(s2)}
            good = [m for m in near if pairs_of.get(m)]
            bad = []
        if len(good) >= max(30, 1.3 * c["min_match"]) and len(bad) <= 0.35 * len(good):
            hit = len(set(good) & set(full))
            check(hit >= 0.75 * len(good), "only", hit, "of", len(good), "true matches are kept", len(bad), "wrong")
            t.label("recovered")
            few = matching.match(a, b, cam, cam2, data, {"robust_matching_min_match": len(full) + 1}, pose)
            check(len(few) == 0, "the minimum of the override is ignored")
            same = as_pairs(matching.match(a, b, cam, cam2, data, {"robust_matching_min_match": len(full)}, pose))
            if True:
                check(len(same) == len(full), "exactly the minimum is not enough")

        # robust matching of given matches, in indices of all or of unmasked features
        given = sorted(sure)
        if len(given) >= 8:
            rb = as_pairs(matching.match_robust(a, b, given, cam, cam2, data, {}, input_is_masked=False))
            check(set(rb) <= set(given), "robust matches that were not given")
            pos = [np.cumsum(v) - 1 for v in p.inside]
            masked = [(int(pos[0][i]), int(pos[1][j])) for i, j in given]
            rm = as_pairs(matching.match_robust(a, b, masked, cam, cam2, data, {}))
            check(set(rm) == set(rb), "masked and unmasked indices give different matches", rm, rb)
            check(len(rb) == 0 or len(rb) >= c["min_match"])

        # saving for either side and finding them again
        m = np.array(given, dtype=int).reshape(-1, 2)
        ref = [a] if c["swap"] else [b]
        if (c["seed"] // 7) % 2:
            ref = [a, b]
        matching.save_matches(data, ref, {(a, b): m})
        f = data.find_matches(a, b)
        g_ = data.find_matches(b, a)
        check(as_pairs(f) == given, "matches found after saving for", ref, as_pairs(f)[:4], given[:4])
        check(as_pairs(g_) == [(j, i) for i, j in given], "matches found in reverse", as_pairs(g_)[:4])
        t.nontrivial(len(full) and not all(v.all() for v in p.inside))
        t.label(c["matcher"], "symmetric" if c["symmetric"] else "one way")
    finally:
        feature_loader.instance.clear_cache()


@CHECK.sub(
    "saved_matches",
    st.fixed_dictionaries({
        "pairs": st.lists(st.tuples(st.integers(0, 5), st.integers(0, 5), st.integers(0, 4)), max_size=12,
                          unique_by=lambda x: tuple(sorted(x[:2]))),
        "ref": st.lists(st.integers(0, 5), unique=True, max_size=6), "seed": seeds,
    }), quick=300, rule="a pair is stored under its second image",
)
def saved_matches(c, t):
    g = rng(c["seed"])
    names = [f"im {i}.jpg" for i in range(6)]
    exif = {"camera": "cam", "width": 4, "height": 3}
    data = make_dataset(t.tmpdir(), {}, names, {n: exif for n in names}, {})
    ref = [names[i] for i in c["ref"]]
    matched = {}
    for i, j, n in c["pairs"]:
        if i != j:
            m = g.integers(0, 1000, (n, 2))
            matched[names[i], names[j]] = m if n else np.array([])
    outside = [p for p in matched if not set(p) & set(ref)]
    try:
        matching.save_matches(data, ref, matched)
    except RuntimeError:
        check(outside, "saving matches failed")
        t.label("refused")
        return
    check(not outside, "matches of images that are not to be saved were lost", outside)
    for im in names:
        check(data.matches_exists(im) == (im in ref), "matches file of", im, ref)
        if im in ref:
            for other in data.load_matches(im):
                check((im, other) in matched or (other, im) in matched, "matches of another pair", im, other)
    for (a, b), m in matched.items():
        want = as_pairs(m)
        check(as_pairs(data.find_matches(a, b)) == want, "found", as_pairs(data.find_matches(a, b)), "saved", want)
        check(as_pairs(data.find_matches(b, a)) == [(y, x) for x, y in want], "found in reverse")
        t.nontrivial(a not in ref and len(m))
    for a in names:
        for b in names:
            if a != b and (a, b) not in matched and (b, a) not in matched:
                check(len(data.find_matches(a, b)) == 0, "matches of a pair that was not matched", a, b)


@CHECK.sub(
    "geometric",
    st.fixed_dictionaries({
        "seed": seeds, "n": st.sampled_from([40, 30, 60, 80, 0, 5, 7, 8, 9, 12]), "wrong": st.sampled_from([0.1, 0.0, 0.3]),
        "cam1": st.sampled_from(["perspective", "fisheye", "plain", "spherical"]),
        "cam2": st.sampled_from(["perspective", "fisheye", "plain", "spherical"]),
        "degenerate": st.sampled_from([None, None, None, "same", "line", "static", "planar"]),
    }), quick=300, rule="enough matches, some of them wrong",
)
def geometric(c, t):
    """The robust stage on points and matches."""
    g = rng(c["seed"])
    cams = [pygeometry.Camera.create_perspective(0.8, 0.0, 0.0) if k == "plain" else camera_of(k) for k in (c["cam1"], c["cam2"])]
    n = c["n"]
    X, R, tr = scene(g, max(n, 1), c["degenerate"] == "planar")
    X, deg = X[:n], c["degenerate"]
    p1 = cams[0].project_many(X).reshape(-1, 2)
    p2 = cams[1].project_many(X @ R.T + tr).reshape(-1, 2)
    if deg == "same":
        p1, p2 = p1 * 0 + 0.1, p2 * 0 + 0.2
    elif deg == "line":
        p1[:, 1], p2[:, 1] = 0.1, 0.1
    elif deg == "static":
        p2 = p1.copy()
    bad = g.random(n) < c["wrong"]
    p2[bad] = g.uniform(-0.3, 0.3, (int(bad.sum()), 2))
    perm = g.permutation(n)
    q2 = np.zeros((n, 3))
    q2[perm, :2] = p2
    q1 = np.c_[p1, np.full(n, 0.004)]
    order = g.permutation(n)
    matches = np.c_[order, perm[order]].astype(int).reshape(-1, 2)
    cfg = osfm_config.default_config()
    got = as_pairs(matching.robust_match(q1, q2, cams[0], cams[1], matches, cfg))
    allm = set(as_pairs(matches))
    check(set(got) <= allm and len(set(got)) == len(got), "matches that were not given")
    if n < 8:
        check(got == [], "matches from less than eight", got)
    if deg in (None, "planar") and n >= 25 and bad.sum() <= 0.35 * n:
        good = {(int(i), int(perm[i])) for i in np.flatnonzero(~bad)}
        hit = len(good & set(got))
        plain = c["cam1"] == "plain" and c["cam2"] == "plain"
        if deg is None or not plain:
            check(hit >= 0.75 * len(good), "only", hit, "of", len(good), "true matches are kept", n)
        if not plain or deg is None:
            # the matches kept agree with one motion
            wrong = len(set(got) - good)
            check(wrong <= 2 + 0.5 * bad.sum(), wrong, "of", int(bad.sum()), "wrong matches are kept")
        t.nontrivial(bad.any())
        t.label("plain" if plain else "calibrated")
    t.label(deg or "general")


@CHECK.sub(
    "epipolar_mask",
    st.fixed_dictionaries({
        "seed": seeds, "n1": st.integers(1, 30), "n2": st.integers(1, 30),
        "threshold": st.sampled_from([0.002, 0.01, 0.1, 0.6]),
    }), quick=200, rule="pairs inside and outside of the threshold",
)
def epipolar_mask(c, t):
    """The guided mask is the set of pairs of rays close to a common epipolar plane."""
    g = rng(c["seed"])
    X, R, tr = scene(g, max(c["n1"], c["n2"]))
    b1, b2 = X[: c["n1"]].copy(), (X @ R.T + tr)[: c["n2"]].copy()
    b1 /= np.linalg.norm(b1, axis=1)[:, None]
    b2 /= np.linalg.norm(b2, axis=1)[:, None]
    pose = pygeometry.Pose(R, tr)
    got = np.asarray(matching.compute_inliers_bearing_epipolar(b1, b2, pose, c["threshold"]))
    check(got.shape == (c["n1"], c["n2"]), "shape of the mask", got.shape)
    e = epipolar_errors(b1, b2, R, tr)
    sure_in, sure_out = e < c["threshold"] - 2e-3 * c["threshold"] - 2e-5, e > c["threshold"] * 1.002 + 2e-5
    check(got[sure_in].all(), "consistent pairs are masked out", e[sure_in & ~got])
    check(not got[sure_out].any(), "inconsistent pairs are kept", e[sure_out & got])
    t.nontrivial(sure_in.any() and sure_out.any())
